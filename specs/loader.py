"""Contracts: loading critical-value distributions from a remote into the local storage (C09, C10)."""
from speclib import *

LOADER = "pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader:CriticalValueLoader"
IST = "pysatl_criterion.persistence.models.limit_distribution:ILimitDistributionStorage"
MODEL = "pysatl_criterion.persistence.models.limit_distribution:LimitDistributionModel"


def model_of(S, name):
    return S.obj(MODEL, experiment_id=S.int(name + "_id"), criterion_code="SOME", criterion_parameters=[],
                 sample_size=S.int(name + "_size"), monte_carlo_count=S.int(name + "_mc"), results_statistics=[S.real(name + "_v")])


def broken(*a):
    raise RuntimeError("storage failure")


class Load(Contract):
    property = "C09"
    cases = ["local", "remote", "nowhere"]

    def args(S, case):
        m = model_of(S, "m")
        local = S.collab("local", cls=IST, methods={
            "get_data_for_cv": lambda query: m if case == "local" else None,
            "insert_data": lambda data: None})
        remote = S.collab("remote", cls=IST, methods={"get_data_for_cv": lambda query: m if case == "remote" else None})
        return dict(local=local, remote=remote, m=m, size=S.int("size"), err=S.int("err"))

    def run(local, remote, size, err):
        return R(LOADER)(local, remote).load("CODE_1", size, err)

    def post_answer(case, result):
        return result == (case != "nowhere")

    def post_local_first(local, size, err):
        cs = calls(local, "get_data_for_cv")
        return len(cs) == 1 and same_query(cs[0][0][0], size, err)

    def post_remote(remote, size, err, case):
        cs = calls(remote, "get_data_for_cv")
        if case == "local":
            return len(cs) == 0
        return len(cs) == 1 and same_query(cs[0][0][0], size, err)

    def post_stored(local, m, case):
        cs = calls(local, "insert_data")
        if case != "remote":
            return len(cs) == 0
        return len(cs) == 1 and cs[0][0][0] is m


def same_query(q, size, err):
    return q.criterion_code == "CODE_1" and same(q.sample_size, size) and same(q.sample_size_error, err)


class LoadDefaultTolerance(Contract):
    property = "C09"

    def args(S):
        m = model_of(S, "m")
        local = S.collab("local", cls=IST, methods={"get_data_for_cv": lambda query: None, "insert_data": lambda data: None})
        remote = S.collab("remote", cls=IST, methods={"get_data_for_cv": lambda query: m})
        return dict(local=local, remote=remote, size=S.int("size"))

    def run(local, remote, size):
        return R(LOADER)(local, remote).load("CODE_1", size)

    def post_queries(local, remote, size, result):
        a, b = calls(local, "get_data_for_cv"), calls(remote, "get_data_for_cv")
        return (result == True and len(a) == 1 and len(b) == 1 and same_query(a[0][0][0], size, 0)
                and same_query(b[0][0][0], size, 0))


class LoadTwice(Contract):
    """what a load stored is found locally by the next one: the remote is not asked again"""

    property = "C09"

    def args(S):
        m = model_of(S, "m")
        state = {"has": None}

        def put(data):
            state["has"] = data

        local = S.collab("local", cls=IST, methods={"get_data_for_cv": lambda query: state["has"], "insert_data": put})
        remote = S.collab("remote", cls=IST, methods={"get_data_for_cv": lambda query: m})
        return dict(local=local, remote=remote, size=S.int("size"), err=S.int("err"), m=m)

    def run(local, remote, size, err):
        ld = R(LOADER)(local, remote)
        return (ld.load("CODE_1", size, err), ld.load("CODE_1", size, err))

    def post_once(local, remote, m, result):
        return (result[0] == True and result[1] == True and len(calls(remote, "get_data_for_cv")) == 1
                and len(calls(local, "insert_data")) == 1 and calls(local, "insert_data")[0][0][0] is m)


class LoadWithoutRemote(Contract):
    property = "C09"

    def args(S):
        local = S.collab("local", cls=IST, methods={"get_data_for_cv": lambda query: None, "insert_data": lambda data: None})
        return dict(local=local, size=S.int("size"), err=S.int("err"))

    def run(local, size, err):
        return R(LOADER)(local, None).load("CODE_1", size, err)

    def post_failure(local, result):
        return result == False and len(calls(local, "insert_data")) == 0


class LoadStorageFailure(Contract):
    """an error of a storage reaches the caller, never a success"""

    property = "C09"
    cases = ["local read", "remote read", "local write"]

    def args(S, case):
        m = model_of(S, "m")
        local = S.collab("local", cls=IST, methods={
            "get_data_for_cv": lambda query: broken() if case == "local read" else None,
            "insert_data": lambda data: broken() if case == "local write" else None})
        remote = S.collab("remote", cls=IST, methods={"get_data_for_cv": lambda query: broken() if case == "remote read" else m})
        return dict(local=local, remote=remote, size=S.int("size"), err=S.int("err"))

    def run(local, remote, size, err):
        return R(LOADER)(local, remote).load("CODE_1", size, err)

    def post_no_success(result, exc):
        return not isnone(exc) or result == False

    def post_nothing_stored(local, case, exc):
        return case == "local write" or len(calls(local, "insert_data")) == 0


# ---------------------------------------------------------------------------------------------- C10
def held(code, size, err):
    """a local look-up of the code with this size and tolerance finds something"""
    return UF("held", code, size, err, rng="bool")


class LoadBulk(Contract):
    property = "C10"
    cases = ["saved", "save fails"]
    unchanged = ("codes",)

    def args(S, case):
        codes = S.strs("codes", S.len("n", 1))
        found = S.objs(MODEL, S.len("k"), "remote", criterion_code="str", sample_size="int", monte_carlo_count="int",
                       experiment_id="int", criterion_parameters=[], results_statistics=[])
        m = model_of(S, "m")
        local = S.collab("local", cls=IST, methods={
            "get_data_for_cv": lambda query: m if held(query.criterion_code, query.sample_size, query.sample_size_error) else None,
            "insert_bulk_data": lambda models: broken() if case == "save fails" else None})
        remote = S.collab("remote", cls=IST, methods={"get_bulk_data": lambda codes, sample_size, sample_size_error=0: found})
        return dict(codes=codes, found=found, local=local, remote=remote, size=S.int("size"), err=S.int("err"))

    def run(codes, local, remote, size, err):
        return R(LOADER)(local, remote).load_bulk(codes, size, err)

    def post_counts(codes, found, size, err, case, result):
        some_missing = exists(codes, lambda c: not held(c, size, err))
        return (same(result.requested_count, len(codes))
                and same(result.already_cached_count, count(codes, lambda c: held(c, size, err)))
                and same(result.newly_cached_count, ite(some_missing and case == "saved", lambda: len(found), lambda: 0)))

    def post_not_found(codes, found, size, err, result):
        return same(result.not_found_codes,
                    [c for c in codes if not held(c, size, err) and not exists(found, lambda m: m.criterion_code == c)])

    def post_remote(codes, remote, size, err):
        cs = calls(remote, "get_bulk_data")
        missing = [c for c in codes if not held(c, size, err)]
        if len(cs) == 0:
            return forall(codes, lambda c: held(c, size, err))
        a, k = cs[0]
        e = a[2] if len(a) > 2 else k["sample_size_error"]
        return (len(cs) == 1 and exists(codes, lambda c: not held(c, size, err)) and same(a[0], missing) and same(a[1], size) and same(e, err))

    def post_saved(codes, found, size, err, local):
        cs = calls(local, "insert_bulk_data")
        if len(cs) == 0:
            return forall(codes, lambda c: held(c, size, err))
        return len(cs) == 1 and same(cs[0][0][0], found)


class LoadBulkNothing(Contract):
    property = "C10"
    cases = ["no codes", "no remote"]

    def args(S, case):
        local = S.collab("local", cls=IST, methods={"get_data_for_cv": lambda query: None, "insert_bulk_data": lambda models: None})
        remote = S.collab("remote", cls=IST, methods={"get_bulk_data": lambda codes, sample_size, sample_size_error=0: []})
        codes = [] if case == "no codes" else S.strs("codes", S.len("n", 1))
        return dict(codes=codes, local=local, remote=remote, size=S.int("size"), err=S.int("err"))

    def run(codes, local, remote, size, err, case):
        return R(LOADER)(local, None if case == "no remote" else remote).load_bulk(codes, size, err)

    def post_report(codes, local, result):
        return (same(result.requested_count, len(codes)) and same(result.already_cached_count, 0)
                and same(result.newly_cached_count, 0) and same(result.not_found_codes, codes)
                and len(calls(local, "insert_bulk_data")) == 0)


class LoadBulkRemoteFailure(Contract):
    property = "C10"

    def args(S):
        local = S.collab("local", cls=IST, methods={"get_data_for_cv": lambda query: None, "insert_bulk_data": lambda models: None})
        remote = S.collab("remote", cls=IST, methods={"get_bulk_data": lambda codes, sample_size, sample_size_error=0: broken()})
        return dict(codes=S.strs("codes", S.len("n", 1)), local=local, remote=remote, size=S.int("size"), err=S.int("err"))

    def run(codes, local, remote, size, err):
        return R(LOADER)(local, remote).load_bulk(codes, size, err)

    def post_no_success(codes, local, result, exc):
        return len(calls(local, "insert_bulk_data")) == 0 and (
            not isnone(exc) or (same(result.newly_cached_count, 0) and same(result.not_found_codes, codes)))
