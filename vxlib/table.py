"""What each property's check runs. Bounds are stated per property."""


# smaller arguments to fall back on when the code under test needs more than the resources of a run (said in the output and the evidence)
LESS = {
    "c01_power": [[12]],
    "c01_power_exponent": [[4]],
    "c01_progression": [[8]],
    "c02_decode": [[3], [2]],
    "c02_encode": [[3], [2]],
    "c02_long": [[4], [2]],
    "c02_much": [[40]],
    "c02_roundtrip": [[3], [2]],
    "c03_list": [[2], [1]],
    "c03_much": [[200]],
    "c03_one": [[4, 2], [3, 1]],
    "c03_set": [[3, 1]],
    "c04_all": [[4, 2], [3, 1]],
    "c04_first": [[4, 2]],
    "c04_much": [[100]],
    "c04_strip": [[2]],
    "c04_strip_default": [[4], [3]],
    "c05_any": [[3], [2]],
    "c07_any": [[5], [3]],
    "c07_much": [[100]],
    "c07_pieces": [[3], [2]],
    "c07_prefix": [[4], [2]],
    "c08_any": [[5], [3]],
    "c08_much": [[50]],
    "c08_pieces": [[3], [2]],
    "c08_roundtrip": [[3], [2]],
    "c08_slashes": [[4], [3]],
    "c09_access": [[1]],
    "c09_case": [[4], [2]],
    "c09_long": [[20]],
    "c10_convert": [[2]],
    "c10_much": [[8]],
    "c10_pointers": [[1]],
    "c10_print": [[2]],
    "c11_date": [[2, 1]],
    "c11_days": [[3]],
    "c11_local": [[1]],
    "c11_roundtrip": [[1]],
    "c12_much": [[300]],
    "c12_pausable": [[3]],
    "c12_timer": [[3]],
    "c12_whole": [[6]],
    "c16_much": [[100]],
    "c16_sequence": [[3], [2]],
    "c17_much": [[300]],
    "c17_sequence": [[3], [2]],
    "c19_much": [[100]],
    "c20_sequence": [[2]],
    "c21_ints": [[1]],
    "c21_keys": [[3], [2]],
    "c21_much": [[12]],
    "c21_strings": [[1]],
    "c23_custom": [[5], [4]],
    "c23_much": [[80]],
    "c23_plain": [[5], [4]],
    "c24_sequence": [[1]],
    "c25_much": [[30]],
    "c26_keys": [[1]],
    "c26_much": [[60]],
    "c27_three": [[1]],
    "c30_much": [[650]],
    "c30_sequence": [[1]],
    "c31_much": [[300]],
    "c31_sequence": [[4]],
    "c32_sequence": [[4], [3]],
    "c33_much": [[12]],
    "c33_sequence": [[4], [3]],
    "c34_much": [[10, 3]],
    "c34_sequence": [[3]],
    "c35_checker": [[3]],
    "c35_sequence": [[3]],
    "c36_sequence": [[3]],
    "c38_much": [[300]],
    "c39_much": [[150]],
    "c39_sequence": [[2]],
    "c40_settings": [[3]],
    "c43_any": [[3], [2]],
    "c43_buffer": [[2]],
    "c43_mix": [[3]],
    "c44_exceptions": [[2]],
    "c44_formatter": [[1]],
    "c44_much": [[60]],
    "c45_many": [[60]],
    "c50_much": [[30]],
}
# the first argument is the size
LESS_FIRST = {"c37_edit": 2, "c38_moves": 2, "c39_line": 3, "c19_sequence": 1}


class J:
    def __init__(self, file, entry, args=(), args_thorough=None, covers=None, conc=False, time=240, time_thorough=1500, mem=3500, instr=20000000, preempt=None,
                 preempt_thorough=None, solver_ms=60000, thorough_only=False, defs=(), weight=1, validate=False, all=False, less=()):
        self.file, self.entry, self.args, self.args_thorough = file, entry, list(args), None if args_thorough is None else list(args_thorough)
        self.covers = [entry.split("_", 1)[1]] if covers is None else list(covers)
        first = LESS_FIRST.get(entry)
        self.less = [list(a) for a in less or LESS.get(entry, ())] + ([[self_args0 - first] + list(args)[1:]] if first and (self_args0 := list(args)[0]) > first else [])
        self.conc, self.time, self.time_thorough, self.mem, self.instr = conc, time, time_thorough, mem, instr
        self.preempt, self.preempt_thorough, self.solver_ms = preempt, preempt_thorough, solver_ms
        self.thorough_only, self.defs, self.weight, self.validate, self.all = thorough_only, list(defs), weight, validate, all

    def name(self):
        return self.entry + "".join("-" + str(a) for a in self.args)


class Spec:
    common = True

    def __init__(self, jobs, bounds, note="", assumptions=()):
        self.jobs, self.bounds, self.note, self.assumptions = jobs, bounds, note, list(assumptions)
        self.technique = "symbolic execution of the compiled LLVM IR" + (", with forking over all thread schedules" if any(j.conc for j in self.jobs) else "") + ", z3 deciding each assertion"


ASSUMPTIONS = [
    "clang 18 -O1 translates the sources faithfully; the symbolic executor (/verif/engine) and z3 4.8.12 are sound",
    "the parts of libstdc++/libc that exist only as compiled code behave as written out in /verif/rt (headers and templates of libstdc++ are executed as they are)",
    "threads are interleaved on a sequentially consistent memory; memory allocation of modest size succeeds",
]

CHECKS = {}
NOT_APPLICABLE = {}


def add(prop, jobs, bounds, assumptions=()):
    CHECKS[prop] = Spec(jobs, bounds, "", assumptions)


def add_py(prop, jobs, bounds, assumptions=()):
    from .pydriver import PySpec
    CHECKS[prop] = PySpec(jobs, bounds, assumptions)


from . import jobs  # noqa: E402,F401
