"""Independent writers and readers for the program's files, and settings text."""
import re
import struct

DEFAULTS = {
    "dim": "2", "particleDistance": "0.5", "dt": "0.125", "endTime": "0.5", "outputPeriod": "0.25", "cflCondition": "0.9", "numPhysicalCores": "1",
    "defaultDensity": "1000", "kinematicViscosity": "0.01", "xyz-input": "true", "gravity": "[0, -8, 0]", "gravity-norm": "9.8", "gravity-angle": "0",
    "surfaceDetection-numberDensity-threshold": "0.97", "surfaceDetection-particleDistribution": "false", "surfaceDetection-particleDistribution-threshold": "0.85",
    "pressureCalculationMethod": "Implicit", "compressibility": "0.45e-9", "relaxationCoefficientForPressure": "0.2", "soundSpeed": "20",
    "collisionDistanceRatio": "0.5", "coefficientOfRestitution": "0.2", "radiusRatioForNumberDensity": "3.1", "radiusRatioForGradient": "3.1", "radiusRatioForLaplacian": "3.1",
    "domainMin": "[-40, -40, 0]", "domainMax": "[40, 40, 0]", "particlesPath": "in.csv", "outputVtkInBinary": "false",
}


def settings(drop=(), **over):
    d = dict(DEFAULTS)
    d.update({k.replace("__", "-"): str(v) for k, v in over.items()})
    return "".join("%s: %s\n" % (k, v) for k, v in d.items() if k not in drop)


def g(v):
    return "%.17g" % v


def prof(ps, t, declared=None):
    return "%s\n%d\n" % (g(t), len(ps) if declared is None else declared) + "".join("%d %s\n" % (p[0], " ".join(g(v) for v in p[1:7])) for p in ps)


def csv(ps, t, declared=None):
    return "%s\n%d\ntype,fluidType,x,y,z,vx,vy,vz\n" % (g(t), len(ps) if declared is None else declared) + \
        "".join("%d,0,%s\n" % (p[0], ",".join(g(v) for v in p[1:7])) for p in ps)


def vtu(ps, t):
    n = len(ps)

    def arr(typ, name, comps, vals):
        return '<DataArray type="%s" Name="%s" NumberOfComponents="%d" format="ascii">\n%s</DataArray>\n' % (typ, name, comps, "".join(v + "\n" for v in vals))
    return ("<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n"
            '<Piece NumberOfPoints="%d" NumberOfCells="%d">\n<Points>\n' % (n, n)
            + arr("Float64", "Position", 3, ["%s %s %s" % tuple(g(v) for v in p[1:4]) for p in ps]) + "</Points>\n<PointData>\n"
            + arr("Int32", "Particle Type", 1, [str(p[0]) for p in ps]) + arr("Float64", "Velocity", 3, ["%s %s %s" % tuple(g(v) for v in p[4:7]) for p in ps])
            + "</PointData>\n<Cells>\n" + arr("Int64", "connectivity", 1, [str(i) for i in range(n)]) + arr("Int64", "offsets", 1, [str(i + 1) for i in range(n)])
            + arr("UInt8", "types", 1, ["1"] * n) + '</Cells>\n</Piece>\n<FieldData>\n<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="ascii">\n%s\n</DataArray>\n</FieldData>\n' % g(t)
            + "</UnstructuredGrid>\n</VTKFile>\n")


WRITERS = {"prof": prof, "csv": csv, "vtu": vtu}


def read_prof(text):
    L = text.split("\n")
    n = int(L[1])
    ps = []
    for line in L[2:]:
        if line.strip():
            f = line.split()
            if len(f) != 7:
                raise ValueError("profile line " + line)
            ps.append([int(f[0])] + [float(v) for v in f[1:]])
    if n != len(ps):
        raise ValueError("profile count")
    return float(L[0]), ps


def read_csv(text):
    L = text.split("\n")
    n = int(L[1])
    H = L[2].split(",")
    ps = []
    for line in L[3:]:
        if line.strip():
            f = dict(zip(H, line.split(",")))
            if len(line.split(",")) != len(H):
                raise ValueError("csv line " + line)
            ps.append([int(f["type"])] + [float(f[k]) for k in ("x", "y", "z", "vx", "vy", "vz")])
    if n != len(ps):
        raise ValueError("csv count")
    return float(L[0]), ps


FMT = {"Float64": "d", "Float32": "f", "Int32": "i", "UInt32": "I", "Int64": "q", "UInt64": "Q", "UInt8": "B", "Int8": "b"}


def vtu_arrays(data):
    """name -> list of numbers; data is bytes"""
    m = re.search(rb'<AppendedData encoding="raw">\s*_', data)
    raw = data[m.end():] if m else b""
    head = (data[:m.start()] if m else data).replace(b"'", b'"')
    if not data.rstrip().endswith(b"</VTKFile>"):
        raise ValueError("VTK file is not complete")
    out = {}
    for t in re.finditer(rb"<DataArray ([^>]*?)(/?)>(.*?)(?=<)", head, re.S):
        at = dict((k.decode(), v.decode()) for k, v in re.findall(rb'(\w+)="([^"]*)"', t.group(1)))
        if at.get("format") == "appended":
            o = int(at["offset"])
            n = struct.unpack("<Q", raw[o:o + 8])[0]
            w = struct.calcsize(FMT[at["type"]])
            vals = list(struct.unpack("<%d%s" % (n // w, FMT[at["type"]]), raw[o + 8:o + 8 + n]))
        else:
            vals = [float(v) for v in t.group(3).split()]
        out[at.get("Name", "Points")] = vals
    n = int(re.search(rb'NumberOfPoints="(\d+)"', head).group(1))
    out["#"] = n
    return out


def read_vtu(data):
    a = vtu_arrays(data)
    n = a["#"]
    pos = a.get("Position") or a.get("Points") or next((v for k, v in a.items() if k.lower().startswith("pos")), [])
    if len(pos) != 3 * n or len(a["Velocity"]) != 3 * n or len(a["Particle Type"]) != n:
        raise ValueError("VTK array lengths")
    return a["Time"][0], [[int(a["Particle Type"][i])] + pos[3 * i:3 * i + 3] + a["Velocity"][3 * i:3 * i + 3] for i in range(n)]


def read_any(path):
    p = str(path)
    with open(p, "rb") as f:
        d = f.read()
    return read_vtu(d) if p.endswith(".vtu") else read_csv(d.decode()) if p.endswith(".csv") else read_prof(d.decode())


def near(a, b, rel=6e-6, ab=1e-300):
    return a == b or abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
