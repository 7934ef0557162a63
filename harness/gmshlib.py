"""A stand-in of the gmsh module: a kernel over an abstract cell complex, records of options, fields, physical groups.

The complex: volumes C0..C2 in a row, volume i has faces i and i+1, face i has edge i, edge i has points i and i+1.
An entity (dim, tag) is a set of cells of its dimension; boolean operations are the set operations gmsh documents
(fragments of all inputs, one list of fragments per input, objects first), equal entities are merged by them.
Nothing is seen by gmsh.model before synchronize. Checked against the gmsh 4.15 by hand for the formats of results."""
import json
import os

from symx.env import HarnessNote

NVOL = 3
API = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gmsh_api.json")))   # functions of gmsh 4.15


class GmshError(Exception):
    """Raised by gmsh for a wrong call: an exception of the code under test, not of the harness."""
    from_code = True


class Wrong(TypeError):
    from_code = True


class Api:
    """Module gmsh: the functions and arguments of gmsh 4.15, some of them implemented by the stand-in."""

    def __init__(self, path, impl):
        self.__dict__["_path"], self.__dict__["_impl"] = path, impl

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        p = self._path + name
        if isinstance(API.get(p), str):
            p = API[p]
        if p not in API:
            if any(q.startswith(p + ".") for q in API):
                return Api(p + ".", self._impl)
            raise AttributeError("module 'gmsh' has no %s" % p)
        if p not in self._impl:
            raise HarnessNote("gmsh.%s is not in the stand-in" % p)
        args, need, defaults = API[p]
        f = self._impl[p]

        def call(*a, **kw):
            if len(a) > len(args) or any(n not in args[len(a):] for n in kw) or any(n not in kw for n in args[len(a):need]):
                raise Wrong("arguments of gmsh.%s" % p)
            vals = list(a) + [kw[n] if n in kw else defaults[args.index(n) - need] for n in args[len(a):]]
            if "tag" in args and p.startswith(("model.occ.add", "model.geo.add")):
                if vals[args.index("tag")] != -1:
                    raise HarnessNote("tags given to gmsh")
            return f(*vals)
        return call

    def __setattr__(self, name, value):
        raise HarnessNote("gmsh module changed")


LISTS = {"NodesList": [], "EdgesList": [], "FacesList": []}
FIELDS = {"Distance": dict(LISTS, NNodesByEdge=20, FieldX=None, FieldY=None, FieldZ=None),
          "Threshold": {"IField": 0, "DistMin": 1, "DistMax": 10, "LcMin": None, "LcMax": 1, "Sigmoid": 0, "StopAtDistMax": 0},
          "Box": dict({c + m: 0 for c in "XYZ" for m in ("Min", "Max")}, VIn=None, VOut=None, Thickness=0),
          "Min": {"FieldsList": []}, "Max": {"FieldsList": []},
          "Restrict": dict(LISTS, RegionsList=[], IField=1, IncludeBoundary=1)}
OTHER_FIELDS = """Attractor AttractorAnisoCurve AutomaticMeshSizeField Ball BoundaryLayer Constant Curvature Cylinder Extend ExternalProcess Frustum Gradient
 IntersectAniso Laplacian LonLat MathEval MathEvalAniso MaxEigenHessian Mean MinAniso Octree Param PostView Sphere Structured""".split()


def facets(dim, cell):
    if dim == 3:
        return [cell, cell + 1]
    if dim == 2:
        return [cell]
    if dim == 1:
        return [cell, cell + 1]
    return []


def closure(dim, cells):
    """All cells of the closed set, by dimension."""
    out = {d: set() for d in range(4)}
    out[dim] = set(cells)
    for d in range(dim, 0, -1):
        for c in out[d]:
            out[d - 1].update(facets(d, c))
    return out


ALIAS = {"InField": "IField", "SizeMin": "LcMin", "SizeMax": "LcMax", "PointsList": "NodesList", "VerticesList": "NodesList", "CurvesList": "EdgesList",
         "SurfacesList": "FacesList", "VolumesList": "RegionsList", "Sampling": "NNodesByEdge", "NumPointsPerCurve": "NNodesByEdge"}


class Kernel:
    def __init__(self, e):
        self.e = e
        self.ents = {}       # (dim, tag) -> frozenset of cells
        self.bnd = {}        # (dim, tag) -> list of (dim - 1, tag)
        self.geo = {}        # (dim, tag) -> what it was made of
        self.map = {}        # (dim, tag) -> list of transforms
        self.seen = None
        self.next = {d: 1 for d in range(4)}
        self.queue = []
        self.mass = {}
        self.center = {}
        self.options = {}
        self.option_log = []
        self.fields = {}
        self.background = None
        self.physical = {}
        self.names = {}
        self.sizes = {}
        self.generated = []
        self.log = []
        self.modules()

    # -- making of entities
    def add(self, dim, cells, geo=None, lower=None):
        t = (dim, self.next[dim])
        self.next[dim] += 1
        self.ents[t] = frozenset(cells)
        self.geo[t] = geo
        self.map[t] = []
        if lower is None:
            lower = []
            if dim > 0 and cells:
                n = {}
                for c in cells:
                    for f in facets(dim, c):
                        n[f] = n.get(f, 0) + 1
                lower = [self.add(dim - 1, [f]) for f in sorted(n) if n[f] == 1]
        self.bnd[t] = list(lower)
        return t

    def make(self, dim, geo, lower=None):
        cells = self.queue.pop(0) if self.queue else ()
        return self.add(dim, cells, geo, lower if not cells else None)[1]

    def known(self, dimtags):
        for d in dimtags:
            if tuple(d) not in self.ents:
                raise GmshError("Unknown entity %s" % (d,))
        return [tuple(d) for d in dimtags]

    def made(self, dim, tag):
        self.known([(dim, tag)])

    def drop(self, dimtags, keep=()):
        """Removal with all that bounds nothing else."""
        todo = list(dimtags)
        while todo:
            d = todo.pop()
            if d not in self.ents or d in keep or any(d in b for b in self.bnd.values()):
                continue
            del self.ents[d]
            todo.extend(self.bnd.pop(d))

    def general_fuse(self, dimtags):
        """Fragments of all entities; list of fragments per entity. Faces, edges are divided to single cells."""
        sig = {}
        members = [(d, self.ents[d, t]) for d, t in dimtags]
        for d, cells in members:
            for c in cells:
                s = tuple(i for i, (dd, cc) in enumerate(members) if dd >= d and c in closure(dd, cc)[d])
                sig[d, c] = s if d == 3 else s + (-1, c)
        classes = {}
        for (d, c), s in sorted(sig.items()):
            classes.setdefault((d, s), []).append(c)
        # faces of volumes and fragments of faces of the input are the same entities
        lower = {}

        def ent(d, cells):
            key = (d, frozenset(cells))
            if key in lower:
                return lower[key]
            n = {}
            for c in cells:
                for f in facets(d, c):
                    n[f] = n.get(f, 0) + 1
            b = []
            for f in sorted(n):
                if n[f] == 1 and d > 0:
                    b += [ent(d - 1, part) for part in parts(d - 1, [f])]
            same = [t for t in dimtags if t[0] == d and self.ents[t] == key[1]]
            if same:
                t = same[0]
                self.bnd[t] = list(dict.fromkeys(b))
                self.map[t] = self.map[t]
            else:
                t = self.add(d, cells, lower=list(dict.fromkeys(b)))
            lower[key] = t
            return t

        def parts(d, cells):
            """Classes that contain the cells (the classes are not divided by cells)."""
            out = []
            for c in cells:
                cl = next((cc for (dd, s), cc in classes.items() if dd == d and c in cc), [c])
                if cl not in out:
                    out.append(cl)
            return out

        frags = {}
        for d, s in classes:
            frags[d, s] = ent(d, classes[d, s])
        out = []
        for (d, t), (dd, cells) in zip(dimtags, members):
            out.append([frags[d, s] for (d2, s), cc in sorted(classes.items()) if d2 == d and set(cc) <= cells])
        return out

    def boolean(self, objects, tools, kind, removeObject=True, removeTool=True, tag=-1):
        objects, tools = self.known(objects), self.known(tools)
        both = objects + tools
        if len(both) < (1 if kind == "fragment" else 2) and not objects:
            raise GmshError("Too few arguments")
        tool_cells = {d: set() for d in range(4)}
        for d, t in tools:
            for k, v in closure(d, self.ents[d, t]).items():
                tool_cells[k] |= v
        obj_cells = {d: set() for d in range(4)}
        for d, t in objects:
            for k, v in closure(d, self.ents[d, t]).items():
                obj_cells[k] |= v
        parts = self.general_fuse(both)
        out_map = []
        for i, ps in enumerate(parts):
            if kind == "fragment":
                r = ps
            elif kind == "cut":
                r = [p for p in ps if not self.ents[p] <= tool_cells[p[0]]] if i < len(objects) else []
            else:
                r = [p for p in ps if self.ents[p] <= tool_cells[p[0]] and self.ents[p] <= obj_cells[p[0]]]
            out_map.append(list(r))
        out = list(dict.fromkeys(p for r in out_map for p in r))
        gone = (objects if removeObject else []) + (tools if removeTool else []) + [p for ps in parts for p in ps]
        keep, todo = set(), list(out)
        while todo:
            keep.add(todo[-1])
            todo += self.bnd[todo.pop()]
        self.drop(sorted(set(gone), reverse=True), keep)
        return out, out_map

    def copy(self, dimtags):
        out = []
        for d in self.known(dimtags):
            t = self.add(d[0], self.ents[d], self.geo[d])
            self.map[t] = list(self.map[d])
            out.append(t)
        if out:
            top = max(d for d, t in out)
            out = [t for t in out if t[0] == top]
        return out

    def transform(self, dimtags, what):
        for d in self.known(dimtags):
            self.map[d].append(what)

    def remove(self, dimtags, recursive=False):
        for d in dimtags:
            d = tuple(d)
            if d in self.ents and not any(d in b for b in self.bnd.values()):
                del self.ents[d]
                low = self.bnd.pop(d)
                if recursive:
                    self.remove(low, True)

    def synchronize(self):
        self.seen = (dict(self.ents), {k: list(v) for k, v in self.bnd.items()})
        self.seen_map = {k: list(v) for k, v in self.map.items()}

    # -- gmsh.model
    def see(self, dimtags):
        ents = self.seen[0] if self.seen else {}
        for d in dimtags:
            if tuple(d) not in ents:
                raise GmshError("Unknown model entity %s" % (d,))
        return [tuple(d) for d in dimtags]

    def get_entities(self, dim=-1):
        return sorted(d for d in (self.seen[0] if self.seen else {}) if dim in (-1, d[0]))

    def get_boundary(self, dimtags, combined=True, oriented=True, recursive=False):
        dimtags = self.see(dimtags)
        ents, bnd = self.seen or ({}, {})
        if oriented:
            raise GmshError("oriented boundary is not in the model")
        if recursive:
            out = []
            todo = list(dimtags)
            while todo:
                d = todo.pop(0)
                todo += bnd[d]
                if d[0] == 0:
                    out.append(d)
            return sorted(set(out))
        n = {}
        for d in dict.fromkeys(dimtags) if combined else dimtags:
            for b in bnd[d]:
                n[b] = n.get(b, 0) + 1
        return [b for b in n if n[b] % 2 or not combined]

    def add_physical(self, dim, tags, tag=-1, name=""):
        self.see([(dim, t) for t in tags])
        if tag < 0:
            tag = 1 + max([t for d, t in self.physical] or [0])
        if (dim, tag) in self.physical:
            raise GmshError("physical group exists")
        self.physical[dim, tag] = sorted(set(tags))
        if name:
            self.names[dim, tag] = name
        return tag

    def remove_physical(self, dimtags):
        for d in [tuple(d) for d in dimtags] or list(self.physical):
            self.physical.pop(d, None)
            self.names.pop(d, None)

    def get_physical(self, dim):
        return sorted(d for d in self.physical if dim in (-1, d[0]))

    def set_name(self, dim, tag, name):
        if (dim, tag) not in self.physical:
            raise GmshError("unknown physical group")
        self.names[dim, tag] = name

    def write(self, name):
        self.log.append(("write", name, sorted(self.seen[0]) if self.seen else []))

    def generate(self, dim=3):
        self.generated.append((dim, dict(self.seen[0]) if self.seen else {}))

    def set_size(self, dimtags, size):
        for d in self.see(dimtags):
            self.sizes[d] = size

    # -- fields
    def field_add(self, kind, tag=-1):
        if kind in OTHER_FIELDS:
            raise HarnessNote("field %s is not in the stand-in" % kind)
        if kind not in FIELDS:
            raise GmshError("Unknown field type %s" % kind)
        n = 1 + max(self.fields or [0]) if tag < 0 else tag
        default = {"LcMin": self.e.lit("1/10"), "VIn": self.e.lit("1e22"), "VOut": self.e.lit("1e22")}
        self.fields[n] = dict({k: list(v) if isinstance(v, list) else default.get(k, v) for k, v in FIELDS[kind].items()}, kind=kind)
        return n

    def field_set(self, many):
        def set(i, name, value):
            if not hasattr(i, "__index__") or i not in self.fields:
                raise GmshError("Unknown field %s" % (i,))
            f, name = self.fields[i], ALIAS.get(name, name)
            if name not in f or name == "kind":
                raise GmshError("Unknown option %s in a field of type %s" % (name, f["kind"]))
            if not many and hasattr(value, "__len__"):
                raise Wrong("must be real number")
            if many and not hasattr(value, "__len__"):
                raise Wrong("object has no len()")
            if many != isinstance(f[name], list):
                raise HarnessNote("numbers given for a list in a field")
            f[name] = list(value) if many else value
        return set

    def option(self, name, value):
        self.options[name] = value
        self.option_log.append((name, value))

    def modules(self):
        k = self

        def transform(kind):
            return lambda dt, *v: k.transform(dt, (kind,) + v)

        def boolean(kind):
            def f(a, b, tag, removeObject, removeTool):
                if tag != -1:
                    raise HarnessNote("tags given to gmsh")
                return k.boolean(a, b, kind, removeObject, removeTool)
            return f

        def nothing(*a):
            return None

        factory = dict(
            addPoint=lambda x, y, z, meshSize, tag: k.make(0, ("point", x, y, z, meshSize)),
            addLine=lambda a, b, tag: k.make(1, ("line", a, b), [(0, a), (0, b)]),
            addCurveLoop=lambda l, tag, *a: ("loop", tuple(l)),
            addPlaneSurface=lambda l, tag: k.make(2, ("plane", tuple(l)), [(1, abs(t)) for x in l for t in x[1]]),
            addSurfaceLoop=lambda l, tag, *a: ("shell", tuple(l)),
            addVolume=lambda l, tag: k.make(3, ("volume", tuple(l)), [(2, abs(t)) for x in l for t in x[1]]),
            addRectangle=lambda x, y, z, dx, dy, tag, r: k.make(2, ("rectangle", x, y, z, dx, dy, r)),
            addBox=lambda x, y, z, dx, dy, dz, tag: k.make(3, ("box", x, y, z, dx, dy, dz)),
            addCylinder=lambda x, y, z, dx, dy, dz, r, tag, angle: k.make(3, ("cylinder", x, y, z, dx, dy, dz, r, angle)),
            translate=transform("translate"), rotate=transform("rotate"), dilate=transform("dilate"),
            copy=k.copy, remove=k.remove, fragment=boolean("fragment"), cut=boolean("cut"), intersect=boolean("intersect"),
            getMass=lambda d, t: k.made(d, t) or k.mass[d, t], getCenterOfMass=lambda d, t: k.made(d, t) or k.center[d, t],
            synchronize=k.synchronize, removeAllDuplicates=lambda: k.log.append("removeAllDuplicates"))
        impl = {"model.%s.%s" % (m, n): f for m in ("occ", "geo") for n, f in factory.items()}
        impl.update({"model.mesh.field." + n: f for n, f in dict(
            add=k.field_add, setNumber=k.field_set(False), setNumbers=k.field_set(True), setAsBackgroundMesh=lambda i: setattr(k, "background", i)).items()})
        impl.update({"model.mesh." + n: f for n, f in dict(
            generate=k.generate, removeDuplicateNodes=lambda *a: k.log.append("removeDuplicateNodes"), getLastEntityError=lambda: [],
            setSize=k.set_size).items()})
        impl.update({"model." + n: f for n, f in dict(
            add=lambda n: k.log.append(("model", n)), getEntities=k.get_entities, getBoundary=k.get_boundary, addPhysicalGroup=k.add_physical,
            setPhysicalName=k.set_name, removePhysicalGroups=k.remove_physical, getPhysicalGroups=k.get_physical).items()})
        impl.update({"option.setNumber": k.option, "option.setString": k.option, "initialize": nothing, "finalize": nothing, "clear": nothing,
                     "write": k.write, "fltk.run": nothing})
        self.gmsh = Api("", impl)


def start(e):
    k = Kernel(e)
    e.stub("gmsh", k.gmsh)
    return k
