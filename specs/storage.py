"""Contracts: the limit-distribution storage (C11, C12) and the compressed column (C13)."""
from speclib import *

MODEL = "pysatl_criterion.persistence.models.limit_distribution:LimitDistributionModel"
QUERY = "pysatl_criterion.persistence.models.limit_distribution:LimitDistributionQuery"
CVQUERY = "pysatl_criterion.persistence.models.limit_distribution:CriticalValueQuery"


def table(S, name="row", n=None):
    """any collection of stored distributions"""
    return S.objs(MODEL, S.len("rows", 0) if n is None else n, name, experiment_id="int", criterion_code="str", criterion_parameters="reals",
                  sample_size="int", monte_carlo_count="int", results_statistics="singles")


def a_model(S, name):
    return S.obj(MODEL, experiment_id=S.int(name + "_id", chi=6), criterion_code=S.strv(name + "_code"),
                 criterion_parameters=S.arr(name + "_par", S.len(name + "_npar", 0, chi=2), kind="list"), sample_size=S.int(name + "_size", chi=6),
                 monte_carlo_count=S.int(name + "_mc", chi=6), results_statistics=S.arr(name + "_val", S.len(name + "_nval", 0, 4294967295), kind="list"))


def a_query(S, name):
    return S.obj(QUERY, criterion_code=S.strv(name + "_code"), criterion_parameters=S.arr(name + "_par", S.len(name + "_npar", 0, chi=2), kind="list"),
                 sample_size=S.int(name + "_size", chi=6), monte_carlo_count=S.int(name + "_mc", chi=6))


def has_key(m, q):
    return (same(m.criterion_code, q.criterion_code) and same(m.criterion_parameters, q.criterion_parameters)
            and same(m.sample_size, q.sample_size) and same(m.monte_carlo_count, q.monte_carlo_count))


def same_row(m, x):
    return has_key(m, x) and same(m.experiment_id, x.experiment_id)


def equal_models(m, x):
    return same_row(m, x) and same(m.results_statistics, x.results_statistics)


class GetData(Contract):
    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), q=a_query(S, "q"))

    def run(store, q):
        return store.get_data(q)

    def post_found(rows, q, result):
        if isnone(result):
            return not exists(rows, lambda m: has_key(m, q))
        return (typename(result) == "LimitDistributionModel" and exists(rows, lambda m: has_key(m, q) and equal_models(m, result))
                and forall(rows, lambda m: implies(has_key(m, q), lambda: m.experiment_id <= result.experiment_id)))


class InsertThenGet(Contract):
    """a saved distribution is found again, to single precision"""

    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), d=a_model(S, "d"), q=a_query(S, "q"))

    def pre(rows, d):
        return forall(rows, lambda m: implies(has_key(m, d), lambda: m.experiment_id <= d.experiment_id))

    def run(store, d):
        store.insert_data(d)
        return store.get_data(R(QUERY)(d.criterion_code, d.criterion_parameters, d.sample_size, d.monte_carlo_count))

    def post_same(d, result):
        return (not isnone(result) and same_row(result, d) and same(result.results_statistics, single(d.results_statistics)))


class InsertOthers(Contract):
    """saving leaves every other key as it was"""

    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), d=a_model(S, "d"), q=a_query(S, "q"))

    def pre(d, q):
        return not has_key(d, q)

    def run(store, d, q):
        before = store.get_data(q)
        store.insert_data(d)
        return (before, store.get_data(q))

    def post_unchanged(result):
        a, b = result
        if isnone(a) or isnone(b):
            return isnone(a) and isnone(b)
        return equal_models(a, b)


class InsertReplaces(Contract):
    """saving the same key again replaces the values: the second save is what is found, and one deletion removes it"""

    property = "C11"

    def args(S):
        rows = table(S)
        d = a_model(S, "d")
        e = S.obj(MODEL, experiment_id=d.experiment_id, criterion_code=d.criterion_code, criterion_parameters=d.criterion_parameters,
                  sample_size=d.sample_size, monte_carlo_count=d.monte_carlo_count, results_statistics=S.arr("e_val", S.len("e_nval", 0, 4294967295), kind="list"))
        return dict(rows=rows, store=S.storage(rows), d=d, e=e)

    def pre(rows, d):
        return forall(rows, lambda m: implies(has_key(m, d), lambda: m.experiment_id <= d.experiment_id))

    def run(store, d, e):
        q = R(QUERY)(d.criterion_code, d.criterion_parameters, d.sample_size, d.monte_carlo_count)
        store.insert_data(d)
        store.insert_data(e)
        found = store.get_data(q)
        store.delete_data(q)
        return (found, store.get_data(q))

    def post_replaced(e, result):
        return not isnone(result[0]) and same_row(result[0], e) and same(result[0].results_statistics, single(e.results_statistics))

    def post_no_copy(result):
        return isnone(result[1])


class Delete(Contract):
    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), q=a_query(S, "q"))

    def run(store, q):
        store.delete_data(q)
        return store.get_data(q)

    def post_gone(result):
        return isnone(result)


class DeleteOthers(Contract):
    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), q=a_query(S, "q"), p=a_query(S, "p"))

    def pre(p, q):
        return not has_key(p, q)

    def run(store, p, q):
        before = store.get_data(p)
        store.delete_data(q)
        return (before, store.get_data(p))

    def post_unchanged(result):
        a, b = result
        if isnone(a) or isnone(b):
            return isnone(a) and isnone(b)
        return equal_models(a, b)


class InsertBulk(Contract):
    """bulk saving: afterwards the last model saved under a key is found, everything else is as before"""

    property = "C11"
    unchanged = ("models",)
    cases = ["1", "2", "3"]
    bound = "at most three models per bulk save (any contents, any table)"

    def args(S, case):
        rows = table(S)
        models = S.objs(MODEL, int(case), "new", experiment_id=3, criterion_code="str", criterion_parameters="reals",
                        sample_size="int", monte_carlo_count="int", results_statistics="singles")
        return dict(rows=rows, store=S.storage(rows), models=models, q=a_query(S, "q"))

    def pre(rows, models):
        return forall(rows, lambda m: m.experiment_id <= 3) and forall(models, lambda m: len(m.results_statistics) <= 4294967295)

    def run(store, models, q):
        before = store.get_data(q)
        store.insert_bulk_data(models)
        return (before, store.get_data(q))

    def post_found(models, q, result):
        before, after = result
        n = len(models)
        hit = exists(models, lambda m: has_key(m, q))
        if isnone(after):
            return not hit and isnone(before)
        old = not isnone(before) and equal_models(before, after)
        return ite(hit,
                   lambda: exists(n, lambda i: has_key(models[i], q) and same_row(models[i], after)
                                  and same(after.results_statistics, single(models[i].results_statistics))
                                  and forall(n, lambda j: implies(j > i, lambda: not has_key(models[j], q)))),
                   lambda: old)


class InsertBulkNothing(Contract):
    property = "C11"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), q=a_query(S, "q"))

    def run(store, q):
        before = store.get_data(q)
        store.insert_bulk_data([])
        return (before, store.get_data(q))

    def post_unchanged(result):
        a, b = result
        if isnone(a) or isnone(b):
            return isnone(a) and isnone(b)
        return equal_models(a, b)


# ---------------------------------------------------------------------------------------------- C12
def admissible(m, q):
    return (same(m.criterion_code, q.criterion_code) and m.sample_size >= q.sample_size - q.sample_size_error
            and m.sample_size <= q.sample_size + q.sample_size_error)


class GetForCv(Contract):
    property = "C12"

    def args(S):
        rows = table(S)
        q = S.obj(CVQUERY, criterion_code=S.strv("code"), sample_size=S.int("size", chi=6), sample_size_error=S.int("err", chi=3))
        return dict(rows=rows, store=S.storage(rows), q=q)

    def run(store, q):
        return store.get_data_for_cv(q)

    def post_best(rows, q, result):
        if isnone(result):
            return not exists(rows, lambda m: admissible(m, q))
        return (typename(result) == "LimitDistributionModel" and exists(rows, lambda m: admissible(m, q) and equal_models(m, result))
                and forall(rows, lambda m: implies(admissible(m, q), lambda: m.monte_carlo_count <= result.monte_carlo_count)))


class GetForCvExact(Contract):
    """without a tolerance only the very sample size counts"""

    property = "C12"

    def args(S):
        rows = table(S)
        return dict(rows=rows, store=S.storage(rows), code=S.strv("code"), size=S.int("size", chi=6))

    def run(store, code, size):
        return store.get_data_for_cv(R(CVQUERY)(code, size))

    def post_best(rows, code, size, result):
        if isnone(result):
            return not exists(rows, lambda m: same(m.criterion_code, code) and same(m.sample_size, size))
        return (exists(rows, lambda m: same(m.criterion_code, code) and same(m.sample_size, size) and equal_models(m, result))
                and forall(rows, lambda m: implies(same(m.criterion_code, code) and same(m.sample_size, size), lambda: m.monte_carlo_count <= result.monte_carlo_count)))


class GetBulk(Contract):
    property = "C12"
    unchanged = ("codes",)
    cases = ["0", "1", "2", "3"]
    bound = "tables of at most three rows (any contents, any codes and tolerance)"

    def args(S, case):
        rows = table(S, "row", int(case))
        return dict(rows=rows, store=S.storage(rows), codes=S.strs("codes", S.len("n", 0)), size=S.int("size", chi=6), err=S.int("err", chi=3))

    def run(store, codes, size, err):
        return store.get_bulk_data(codes, size, err)

    def post_stored(rows, codes, size, err, result):
        return forall(result, lambda r: exists(rows, lambda m: wanted(m, codes, size, err) and equal_models(m, r)))

    def post_complete(rows, codes, size, err, result):
        return forall(rows, lambda m: implies(wanted(m, codes, size, err), lambda: exists(result, lambda r: same(r.criterion_code, m.criterion_code))))

    def post_best(rows, codes, size, err, result):
        return forall(result, lambda r: forall(rows, lambda m: implies(
            wanted(m, codes, size, err) and same(r.criterion_code, m.criterion_code), lambda: m.monte_carlo_count <= r.monte_carlo_count)))

    def post_once(result):
        n = len(result)
        return forall(n, lambda i: forall(n, lambda j: implies(j < i, lambda: not same(result[i].criterion_code, result[j].criterion_code))))


def wanted(m, codes, size, err):
    return exists(codes, lambda c: same(c, m.criterion_code)) and m.sample_size >= size - err and m.sample_size <= size + err


# ---------------------------------------------------------------------------------------------- C13
class Column(Contract):
    property = "C13"
    cases = ["single", "double"]
    unchanged = ("value",)

    def args(S, case):
        return dict(col=S.column(case == "single"), value=S.arr("value", S.len("n", 0, 4294967295, rare=[255, 256, 70000]), kind="list"))

    def run(col, value):
        return col.process_result_value(col.process_bind_param(value, None), None)

    def post_same(value, result, case):
        return typename(result) == "list" and same(result, single(value) if case == "single" else value)


class ColumnDefault(Contract):
    """without a request for single precision nothing is lost at all; arrays can be written too"""

    property = "C13"

    def args(S):
        return dict(value=S.arr("value", S.len("n", 0, 4294967295, rare=[255, 256, 70000])))

    def run(value):
        c = R("pysatl_criterion.persistence.sqlalchemy.alchemy_decorator:CompressedFloatArray")()
        return c.process_result_value(c.process_bind_param(value, None), None)

    def post_same(value, result):
        return typename(result) == "list" and same(result, value)


class ColumnShared(Contract):
    """columns of different precision read each other's data with the precision it was written in"""

    property = "C13"
    cases = ["single", "double"]

    def args(S, case):
        return dict(a=S.column(case == "single"), b=S.column(case != "single"), value=S.arr("value", S.len("n", 0, 4294967295, rare=[255, 256, 70000]), kind="list"))

    def run(a, b, value):
        return b.process_result_value(a.process_bind_param(value, None), None)

    def post_same(value, result, case):
        return same(result, single(value) if case == "single" else value)


class ColumnTwice(Contract):
    """writing a second list does not disturb the first"""

    property = "C13"
    cases = ["single", "double"]

    def args(S, case):
        return dict(col=S.column(case == "single"), a=S.arr("a", S.len("n", 0, 4294967295), kind="list"), b=S.arr("b", S.len("m", 0, 4294967295), kind="list"))

    def run(col, a, b):
        x = col.process_bind_param(a, None)
        y = col.process_bind_param(b, None)
        return (col.process_result_value(y, None), col.process_result_value(x, None))

    def post_same(a, b, result, case):
        return (same(result[0], single(b) if case == "single" else b) and same(result[1], single(a) if case == "single" else a))


class ColumnAbsent(Contract):
    property = "C13"
    cases = ["single", "double"]

    def args(S, case):
        return dict(col=S.column(case == "single"))

    def run(col):
        return (col.process_bind_param(None, None), col.process_result_value(None, None))

    def post_absent(result):
        return isnone(result[0]) and isnone(result[1])
