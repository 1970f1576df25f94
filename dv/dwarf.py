"""Class layouts by field name, from the debug information of the extracted IR."""
import re, subprocess
def _attrs(src):
    return dict(re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![\d]+|[\w| ]+)', src))
class Layouts:
    def __init__(s, mod):
        s.md = mod.md; s.cls = {}
        ids = {}
        for k, v in s.md.items():
            if "!DICompositeType(" in v and "identifier:" in v and ("tag: DW_TAG_class_type" in v or "tag: DW_TAG_structure_type" in v) and "DIFlagFwdDecl" not in v:
                a = _attrs(v)
                ids[k] = a["identifier"].strip('"')
        names = subprocess.run(["c++filt"], input="\n".join(ids.values()), capture_output=True, text=True).stdout.split("\n")
        for (k, _), n in zip(ids.items(), names):
            s.cls[n.replace("typeinfo name for ", "")] = k
    def members(s, name, base=0, k=None):
        key = (name, base, k); memo = s.__dict__.setdefault("memo", {})
        if key not in memo: memo[key] = s._members(name, base, k)
        return memo[key]
    def _members(s, name, base=0, k=None):
        """[(path, byte offset, size in bits or None, node)] with base classes flattened"""
        k = s.cls[name] if k is None else k
        a = _attrs(s.md[k]); out = []
        el = a.get("elements")
        if not el: return out
        for m in re.findall(r'!(\d+)', s.md[int(el[1:])]):
            src = s.md[int(m)]
            if not src.startswith("!DIDerivedType"): continue
            b = _attrs(src)
            if "DIFlagStaticMember" in src: continue
            off = base + int(b.get("offset", "0")) // 8
            if "DW_TAG_inheritance" in src:
                bt = s.strip(int(b["baseType"][1:]))
                out += s.members(None, off, bt)
            elif "DW_TAG_member" in src:
                out.append((b.get("name", '""').strip('"'), off, int(b.get("size", "0")), int(b["baseType"][1:])))
        return out
    def strip(s, k):
        while True:
            v = s.md[k]
            if v.startswith("!DIDerivedType") and ("typedef" in v or "const_type" in v or "volatile" in v or "DW_TAG_template_alias" in v):
                k = int(_attrs(v)["baseType"][1:])
            else: return k
    def off(s, cls, name, ordinal=None):
        """byte offset of a field; by name, or by declaration position when it was renamed"""
        ms = s.members(cls)
        for m in ms:
            if m[0] == name: return m[1]
        if ordinal is not None: return ms[ordinal][1]
        raise KeyError("%s has no field %s" % (cls, name))
    def size(s, cls): return int(_attrs(s.md[s.cls[cls]])["size"]) // 8
    def kind(s, k):
        k = s.strip(k); v = s.md[k]; a = _attrs(v)
        if v.startswith("!DIBasicType"):
            n = a["name"].strip('"'); return ("bool",) if "boolean" in v else ("float", int(a["size"])) if "float" in v else ("int", int(a["size"]), "unsigned" not in v)
        if "DW_TAG_pointer_type" in v or "reference_type" in v: return ("ptr", int(a["baseType"][1:]) if "baseType" in a and a["baseType"] != "null" else None)
        if "enumeration_type" in v: return ("int", int(a["size"]), False)
        if "DW_TAG_array_type" in v: return ("array", int(a["size"]), k)
        return ("class", k)
    def leaves(s, k, base=0):
        """all scalar leaves of class node k: [(offset, kind)]"""
        out = []
        for nm, off, sz, t in s.members(None, base, k):
            kd = s.kind(t)
            if kd[0] == "class": out += s.leaves(kd[1], off)
            else: out.append((off, kd, nm))
        return out
def _base(s, cls, part):
    """byte offset of a direct base class whose name contains `part`"""
    a = _attrs(s.md[s.cls[cls]])
    for m in re.findall(r'!(\d+)', s.md[int(a["elements"][1:])]):
        src = s.md[int(m)]
        if "DW_TAG_inheritance" in src:
            b = _attrs(src)
            if part in s.md[s.strip(int(b["baseType"][1:]))]: return int(b.get("offset", "0")) // 8
    raise KeyError(part)
Layouts.base = _base
