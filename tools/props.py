"""What each property's check consists of."""
import gen_substr as gs
import gen_int as gi
import gen_real as gr
import gen_fmt as gf
import gen_code as gc
import gen_mem as gm
import gen_span as gp
import gen_enum as ge
import gen_error as gx
import gen_obj as go
import gen_util as gu
import gen_func as gfn

class Part:
    """cases of one generator, run by one driver, judged by one trace specification"""
    def __init__(self, name, driver, spec, gen, defines=(), stateful=False, configs=("asan", "rel"),
                 configs_thorough=("asan", "rel", "uchar", "rel17", "rel20", "san14"), hang_s=60):
        self.name, self.driver, self.spec, self.gen = name, driver, spec, gen
        self.defines, self.stateful, self.configs, self.configs_thorough = tuple(defines), stateful, configs, configs_thorough
        self.hang_s = hang_s
    @staticmethod
    def cut(e):
        return e.startswith('{"o":"begin')

class Model:
    """a specification module with properties that TLC checks"""
    def __init__(self, module, cfg=None, what="", workers=2, heap="2g", timeout=700, thorough_only=False):
        self.module, self.cfg, self.what = module, cfg or module + ".cfg", what
        self.workers, self.heap, self.timeout, self.thorough_only = workers, heap, timeout, thorough_only

class Prop:
    def __init__(self, parts, models=(), level="model_checking", assumptions=()):
        self.parts, self.models, self.level, self.assumptions = parts, list(models), level, list(assumptions)

def sub(name, gen, *grp, **kw):
    return Part(name, "d_substr", "TraceSubstr", gen, defines=["G_" + g for g in grp], **kw)

def part(name, area, gen, *grp, **kw):
    return Part(name, "d_" + area, "Trace" + area.capitalize(), gen, defines=["G_" + g for g in grp], **kw)

PROPS = {
    "S01": Prop([sub("select", gs.select, "SEL")], [Model("MCSubstr", "MCS01.cfg", "selections: any history stays inside the text; partition laws")]),
    "S02": Prop([sub("lookup", gs.lookup, "LOOK")], [Model("MCSubstr", "MCS02.cfg", "search laws")]),
    "S03": Prop([sub("compare", gs.compare, "CMP", configs_thorough=("asan", "rel", "rel17", "rel20", "san14"))], [Model("MCSubstr", "MCS03.cfg", "total order laws")]),
    "S04": Prop([sub("split", gs.split, "SPLIT")], [Model("MCSubstr", "MCS04.cfg", "partition laws")]),
    "S05": Prop([sub("numtok", gs.numtok, "NUM")], [Model("MCSubstr", "MCS05.cfg", "token laws"), Model("MCSubstr", "MCS05t.cfg", "token laws", thorough_only=True)]),
    "I01": Prop([part("write", "int", gi.write, "WRITE")], [Model("MCInt", "MCI01.cfg", "value/text laws, big naturals"), Model("MCInt", "MCI01t.cfg", "value/text laws", thorough_only=True)]),
    "I02": Prop([part("read", "int", gi.read, "READ")], [Model("MCInt", "MCI02.cfg", "grammar laws"), Model("MCInt", "MCI02t.cfg", "grammar laws", thorough_only=True)]),
    "I03": Prop([part("overflow", "int", gi.overflow, "READ")], [Model("MCInt", "MCI01.cfg", "overflow iff the stored value differs")]),
    "I04": Prop([part("first", "int", gi.first, "READ")], [Model("MCInt", "MCI02.cfg", "token and value laws")]),
    "R01": Prop([part("rwrite", "real", gr.write)], [Model("MCReal", "MCR01.cfg", "one text per value and precision", workers=1), Model("MCReal", "MCR01e.cfg", "exact values round to themselves")]),
    "R02": Prop([part("rread", "real", gr.read), part("rfirst", "real", gr.first)], [Model("MCReal", "MCR02.cfg", "rounding is a total function"), Model("MCReal", "MCR02s.cfg", "grammar laws")]),
    "F01": Prop([part("fwrite", "fmt", gf.write, "WRITE")], [Model("MCFmt", "MCF01.cfg", "composition laws")]),
    "F02": Prop([part("fread", "fmt", gf.read, "READ")], [Model("MCFmt", "MCF02.cfg", "reading back what was written")]),
    "F03": Prop([part("dump", "fmt", gf.dump, "DUMP")], [Model("MCDump", "MCF03.cfg", "any history of buffer sizes dumps every piece once, in order")]),
    "B01": Prop([part("base64", "code", gc.b64, configs=("asan", "rel", "uchar"))], [Model("MCCode", "MCB01.cfg", "decoding inverts encoding"), Model("MCCode", "MCB01d.cfg", "a valid text is the encoding of its data up to unused bits")]),
    "U01": Prop([part("utf", "code", gc.utf)], [Model("MCCode", "MCU01.cfg", "every code point: shortest form, order, decodable")]),
    "M01": Prop([part("linear", "mem", gm.linear)], [Model("MCMem", "MCM01.cfg", "every history of a linear resource: blocks inside, aligned, apart, contents kept"), Model("MCMem", "MCM01t.cfg", "the same, larger", thorough_only=True)]),
    "M02": Prop([part("counts", "mem", gm.counts)], [Model("MCScopes", "MCM02.cfg", "every history of scopes and requests: counts are exact, scopes restore"), Model("MCScopes", "MCM02t.cfg", "the same, deeper", thorough_only=True)]),
    "M03": Prop([part("alloc", "mem", gm.alloc)], [Model("MCSmall", "MCM03.cfg", "every history of an allocator with its own room: blocks apart, aligned, nothing leaked")]),
    "L01": Prop([part("span", "span", gp.spans, configs=("asan", "rel", "cxx11"), configs_thorough=("asan", "rel", "cxx11", "uchar", "rel17", "rel20", "san14"))],
                [Model("MCSpan", "MCL01%s.cfg" % c, "every history of a %s stays in its memory and keeps what it has to" % c) for c in ("span", "rs", "rsl")]),
    "E01": Prop([part("enum", "enum", ge.enums)], [Model("MCEnum", "MCE01.cfg", "every value that has a text is read back from it; spellings are unambiguous")]),
    "X01": Prop([part("error", "error", gx.errors, configs=("asan", "rel", "exc"), configs_thorough=("asan", "rel", "exc", "rel17", "rel20", "cxx11"))],
                [Model("MCErrors", "MCX01.cfg", "every history of settings and scopes: leaving a scope restores both settings, an error never goes on")]),
    "O01": Prop([part("objects", "obj", go.objects, configs=("asan", "rel"), configs_thorough=("asan", "rel", "cxx11", "rel17", "rel20"))],
                [Model("MCObj", "MCO01%s.cfg" % k, "every history of objects in raw memory (%s): moves lose and duplicate nothing" % k) for k in ("triv", "move", "copy")]),
    "G01": Prop([part("bits", "bits", gu.bits, configs=("asan", "rel", "cxx11"), configs_thorough=("asan", "shift", "rel", "cxx11", "uchar", "rel17", "rel20")),
                 # the same without compiler intrinsics
                 part("portable", "bits", gu.bits1, "PORTABLE", configs=("asan",), configs_thorough=("asan", "shift", "rel", "rel17"))],
                [Model("MCBits", "MCG01.cfg", "laws of bits, masks, powers and sizes")]),
    "G02": Prop([part("raw", "raw", gu.raw, configs=("asan", "rel", "uchar"), configs_thorough=("asan", "rel", "uchar", "cxx11", "rel17", "rel20"))],
                [Model("MCRaw", "MCG02.cfg", "a hash fed piece by piece, in any history, is the hash of the whole; repetition, overlap")]),
    "G03": Prop([part("layout", "layout", gu.layout, configs=("asan", "rel", "cxx11"), configs_thorough=("asan", "rel", "cxx11", "rel17", "rel20", "san14"))],
                [Model("MCLayout", "MCG03.cfg", "every history of a pair keeps its parts apart; sizes are the least that do")]),
    "P01": Prop([part("functions", "func", gfn.funcs, configs=("asan", "rel17"), configs_thorough=("asan", "shift", "rel17", "rel20"))],
                [Model("MCFunc", "MCP01.cfg", "every history of functions kept in place: one live object each, none forgotten"), Model("MCFunc", "MCP01t.cfg", "the same, deeper", thorough_only=True)]),
    "N01": Prop([part("rng", "rng", gu.rngs, configs=("asan", "shift", "rel"), configs_thorough=("asan", "shift", "rel", "cxx11", "rel17", "rel20"))],
                [Model("MCRng", "MCN01.cfg", "every history of two generators: numbers are a function of the state; published values"),
                 Model("MCRng", "MCN01j.cfg", "skipping far at once is skipping one by one; the full periods")]),
    "S06": Prop([sub("edit", gs.edit, "EDIT")], [Model("MCSubstr", "MCS06.cfg", "edit laws")]),
}
