"""Types from debug info: member tables of the state structs."""
import re
from sym import *


def strip(mod, mid):
    while mid is not None:
        s = mod.meta[mid]
        if re.match(r"(distinct )?!DIDerivedType\(tag: DW_TAG_(typedef|const_type|volatile_type|restrict_type)", s):
            mid = mod.mget(mid, "baseType"); continue
        return mid
    return None


def tparams(mod, mid):
    tp = mod.mget(mid, "templateParams")
    if tp is None: return []
    out = []
    for x in re.findall(r"!(\d+)", mod.meta[tp]):
        s = mod.meta[int(x)]
        if s.startswith("!DITemplateTypeParameter"): out.append(mod.mget(int(x), "type"))
        elif s.startswith("!DITemplateValueParameter"):
            m = re.search(r"value: i\d+ (-?\d+)", s); out.append(("v", int(m.group(1)) if m else None))
    return out


def di_ety(mod, mid):
    mid = strip(mod, mid)
    s = mod.meta[mid]
    size = int(mod.mget(mid, "size") or 0) // 8
    if s.startswith("!DIBasicType"):
        enc = mod.mget(mid, "encoding")
        return EScal(size, enc in ("DW_ATE_signed", "DW_ATE_signed_char"))
    if "DW_TAG_enumeration_type" in s: return EScal(size)
    if "DW_TAG_pointer_type" in s or "DW_TAG_reference_type" in s:
        b = mod.mget(mid, "baseType")
        return EPtr(mod.qualname(strip(mod, b)) if b is not None else None)
    if "DW_TAG_array_type" in s:
        els = mod.mget(mid, "elements"); n = 1
        for x in re.findall(r"!(\d+)", mod.meta[els]): n *= int(mod.mget(int(x), "count"))
        return EArr(n, di_ety(mod, mod.mget(mid, "baseType")))
    nm = mod.mget(mid, "name") or ""
    if nm.startswith("vector<"): return EVec(di_ety(mod, tparams(mod, mid)[0]))
    if nm.startswith("unique_ptr<"): return EPtr(mod.qualname(strip(mod, tparams(mod, mid)[0])))
    if nm.startswith("shared_ptr<"): return EPtr(mod.qualname(strip(mod, tparams(mod, mid)[0])), 16)
    if nm.startswith("map<"):
        vm = strip(mod, tparams(mod, mid)[1])
        if not tparams(mod, vm):                # only declared in this translation unit: the name has the argument
            m = re.match(r"shared_ptr<([\w:]+)>$", mod.mget(vm, "name") or "")
            if not m: raise Unsupported("map value type " + str(mod.mget(vm, "name")))
            return EMap(m.group(1))
        return EMap(mod.qualname(strip(mod, tparams(mod, strip(mod, tparams(mod, mid)[1]))[0])))
    if nm.startswith("array<"):
        tp = tparams(mod, mid); return EArr(tp[1][1], di_ety(mod, tp[0]))
    if "DW_TAG_structure_type" in s or "DW_TAG_class_type" in s:
        q = mod.qualname(mid)
        if q.startswith("std::"): return EOpaque(q, size)
        try:
            return EStruct(size, [(o, di_ety(mod, b)) for _, o, _, b in mod.members(mid)])
        except Unsupported: return EOpaque(q, size)
    return EOpaque(nm, size)


class StructInfo:
    def __init__(self, mod, qual):
        self.qual = qual
        mid = mod.structs().get(qual)
        if mid is None: raise Unsupported("struct %s not found" % qual)
        self.fields = {}; self.order = []
        for (n, o, sz, b) in mod.members(mid):
            if n is None or n.startswith("_vptr"): continue
            self.fields[n] = (o, di_ety(mod, b)); self.order.append(n)
        self.mid = mid


_si = {}
def struct_info(mod, qual):
    k = (mod.src, qual)
    if k not in _si: _si[k] = StructInfo(mod, qual)
    return _si[k]
