"""The registered checks."""
from . import api as P
from . import attrs as A
from . import derive as D
from . import generic as GN
from . import graph as G
from . import model as M
from . import own as OW
from . import repeat as RP
from . import types as T
from .core import Check

# what counts as a non-trivial case
R = {
    "C01/values": "distinct program; it has an enum or a struct with more than one field, whose serialized values are validated",
    "C02/fields": "distinct program; some struct or struct variant has a skipped, optional or renamed field, a tag, or is transparent",
    "C03/names": "distinct program; a case rule or a rename applies to some identifier",
    "C04/enums": "distinct program; some enum has two or more variants that are serialized",
    "C05/annotations": "distinct program; two or more containers, variants or fields are annotated",
    "C06/accepted": "distinct program; two or more valid annotations, in random order and grouping",
    "C06/arbitrary": "distinct program; random attribute tokens on a random item",
    "C06/rejected": "distinct program; exactly one defect was injected into a valid definition",
    "C06/shapes": "distinct program; a shape the derive does not support",
    "C07/generics": "distinct program; the generic definition is instantiated with at least one argument",
    "C08/definitions": "distinct program; its definitions refer to each other in a cycle",
    "C08/graphs": "distinct graph; it has a cycle",
    "C09/definitions": "distinct program; more than one definition",
    "C09/documents": "distinct program; a document built from generated definitions",
    "C09/graphs": "distinct history; the type graph has two or more edges and a named type",
    "C10/definitions": "distinct program; two orders of more than one mention",
    "C10/graphs": "distinct history; more than one root and more than one expected component, mentioned in several orders",
    "C11/verify": "distinct component set; it contains at least one reference",
    "C12/histories": "distinct history; some name is registered more than once",
    "C13/merge": "distinct start and step list with at least two steps",
    "C14/apply": "distinct model and parameter list; some parameter is set",
    "C15/documents": "distinct document with at least one operation, or distinct schema with more than one node",
    "C16/paths": "distinct program with at least one path",
    "C17/operations": "distinct program with at least one path",
    "C18/expressions": "distinct program; some type expression is not a plain scalar",
    "C18/minimal": "distinct program; some type expression is not a plain scalar; the crate is built without default features",
    "C19/security": "distinct program with at least one path",
    "C20/builders": "distinct program; the described schema has more than one node",
    "C21/definitions": "distinct program; an inline flag is written or there is more than one definition",
    "C21/graphs": "distinct case; a named type reached through a pointer, optional or container",
    "C22/definitions": "distinct program; a document built from generated definitions",
    "C22/documents": "distinct program with at least one path",
    "C23/programs": "distinct program; the repeated description has more than one path, tag, scheme or definition",
    "C24/own": "distinct program; some type is described with impl_opg_model! or by hand",
    "C23/models": "distinct document with at least one operation, or distinct schema with more than one node",
}

CHECKS = {}


def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg


@check("C01")
def c01():
    return Check("C01", [D.fam("values", D.gen_c01, D.judge_c01, 2400, 40000, R["C01/values"])])


@check("C02")
def c02():
    return Check("C02", [D.fam("fields", D.gen_c02, D.judge_c02, 4000, 40000, R["C02/fields"])])


@check("C03")
def c03():
    return Check("C03", [D.fam("names", D.gen_c03, D.judge_c03, 4000, 40000, R["C03/names"])])


@check("C04")
def c04():
    return Check("C04", [D.fam("enums", D.gen_c04, D.judge_c04, 4000, 40000, R["C04/enums"])])


@check("C05")
def c05():
    return Check("C05", [D.fam("annotations", D.gen_c05, D.judge_c05, 4000, 40000, R["C05/annotations"])])


@check("C11")
def c11():
    return Check("C11", [M.fam("verify", M.gen_c11, M.judge_c11, 40000, 600000, R["C11/verify"])])


@check("C13")
def c13():
    return Check("C13", [M.fam("merge", M.gen_c13, M.judge_c13, 30000, 400000, R["C13/merge"])])


@check("C14")
def c14():
    return Check("C14", [M.fam("apply", M.gen_c14, M.judge_c14, 40000, 600000, R["C14/apply"])])


@check("C15")
def c15():
    return Check("C15", [M.fam("documents", M.gen_c15, M.judge_c15, 12000, 300000, R["C15/documents"])])


@check("C08")
def c08():
    return Check("C08", [G.ihist("graphs", G.gen_c08, G.judge_c08, 12000, 250000, R["C08/graphs"]),
                         D.fam("definitions", G.gen_c08d, G.judge_c08d, 1600, 25000, R["C08/definitions"])])


@check("C09")
def c09():
    return Check("C09", [G.ihist("graphs", G.gen_c09, G.judge_c09, 9000, 200000, R["C09/graphs"]),
                         D.fam("definitions", G.gen_c09d, G.judge_c09d, 1400, 25000, R["C09/definitions"]),
                         P.fam("documents", P.gen_defs_doc, P.judge_c09doc, 600, 15000, R["C09/documents"])])


@check("C10")
def c10():
    return Check("C10", [G.ihist("graphs", G.gen_c10, G.judge_c10, 9000, 200000, R["C10/graphs"]),
                         D.fam("definitions", G.gen_c10d, G.judge_c10d, 1400, 25000, R["C10/definitions"])])


@check("C12")
def c12():
    return Check("C12", [G.ihist("histories", G.gen_c12, G.judge_c12, 20000, 250000, R["C12/histories"])])


@check("C21")
def c21():
    return Check("C21", [G.ihist("graphs", G.gen_c21, G.judge_c21, 12000, 200000, R["C21/graphs"]),
                         D.fam("definitions", G.gen_c21d, G.judge_c21d, 2000, 25000, R["C21/definitions"])])


@check("C18")
def c18():
    return Check("C18", [T.fam("expressions", T.gen_c18, T.judge_c18, 2400, 40000, R["C18/expressions"]),
                         T.famm("minimal", T.gen_c18m, T.judge_c18, 800, 10000, R["C18/minimal"])])


@check("C20")
def c20():
    return Check("C20", [T.fam("builders", T.gen_c20, T.judge_c20, 6000, 40000, R["C20/builders"])])


@check("C07")
def c07():
    return Check("C07", [GN.fam("generics", GN.gen_c07, GN.judge_c07, 2400, 30000, R["C07/generics"])])


@check("C06")
def c06():
    return Check("C06", [A.fam("accepted", A.gen_accept, A.judge_accept, 2400, 30000, R["C06/accepted"]),
                         A.fam("rejected", A.gen_reject, A.judge_reject, 4000, 40000, R["C06/rejected"]),
                         A.fam("shapes", A.gen_shape, A.judge_reject, 800, 10000, R["C06/shapes"]),
                         A.fam("arbitrary", A.gen_soup, A.judge_soup, 3200, 40000, R["C06/arbitrary"])])


@check("C16")
def c16():
    return Check("C16", [P.fam("paths", P.gen_c16, P.judge_c16, 1400, 25000, R["C16/paths"])])


@check("C17")
def c17():
    return Check("C17", [P.fam("operations", P.gen_c17, P.judge_c17, 1400, 25000, R["C17/operations"])])


@check("C19")
def c19():
    return Check("C19", [P.fam("security", P.gen_c19, P.judge_c19, 1400, 25000, R["C19/security"])])


@check("C22")
def c22():
    return Check("C22", [P.fam("documents", P.gen_c22, P.judge_c22, 800, 20000, R["C22/documents"]),
                         P.fam("definitions", P.gen_defs_doc, P.judge_c22d, 800, 20000, R["C22/definitions"])])


@check("C23")
def c23():
    return Check("C23", [RP.fam("programs", 500, 12000, R["C23/programs"]),
                         RP.ifam("models", 6000, 200000, R["C23/models"])])


@check("C24")
def c24():
    return Check("C24", [OW.fam("own", 2000, 30000, R["C24/own"])])
