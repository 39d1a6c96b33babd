"""C09 / C16 / C20 / C25: the code the translator emits and the types the analyser assigns, over all operand types"""
from .. import ir
from ..core import Result
from . import translate

ORACLE = ("oracle: the C17 rules for operand conversion, result type and value, written out in kv/csem.py; two terms are "
          "considered equal when their normal forms agree or no valuation of their leaves separates them")


def _run(rules, groups, kinds, rule, minimum):
    r = Result()
    r.rules = [rules, ORACLE]
    prog = ir.load_program()
    translate.run_cases(prog, groups, r, kinds, rule)
    r.assume = ["operands are abstract values of their type; scalar types are enumerated (arithmetic types, qualified, pointer, "
                "array, function, bit-field of the interesting widths and offsets), aggregates only where the operator takes them",
                "the IR instructions mean what C08 decides"]
    for g in groups:
        r.need("operand combinations of %s" % g, minimum)
    return r


def c09(tier):
    return _run("value: the instruction sequence emitted for an operator leaves on the stack, for every operand value, the value "
                "C prescribes for these operand types, evaluates the operands in an allowed way, and leaves the stack balanced",
                ["binary", "unary", "cond", "comma", "subscript"], "V", "value", 50)


def c16(tier):
    return _run("conversion: the instructions emitted to convert a value of one scalar type to another leave exactly the converted "
                "value, for every ordered pair of types", ["typeconv", "cast", "return", "call"], "V", "conversion", 50)


def c20(tier):
    return _run("type: the analyser gives each operator applied to each combination of operand types the type, constant-ness and "
                "lvalue-ness C prescribes, and rejects the combinations C forbids",
                ["binary", "unary", "incdec", "cast", "cond", "comma", "assign", "subscript", "call", "return"], "T", "type", 50)


def c25(tier):
    return _run("store: assignment, compound assignment and increment/decrement write exactly the designated object (exactly the "
                "bits of a bit-field), once, with the value C prescribes, and yield the stored value",
                ["assign", "incdec"], "V", "store", 50)


def c28(tier):
    return _run("call: every argument of a call is evaluated exactly once before the call and passed as the parameter's type (or the "
                "default promoted type) with the converted value, the designated function is called, the result is the returned "
                "value in its type, and a return statement leaves exactly the converted value; argument counts and types C forbids "
                "are rejected", ["call", "return"], "VT", "call", 50)
