"""The sample settings are flat; this reads them."""


def load(text):
    r = {}
    for line in text.split("\n"):
        line = line.split("#")[0].rstrip()
        if ":" in line and not line.startswith(" "):
            k, v = line.split(":", 1)
            r[k.strip()] = v.strip()
    return r
