"""Writes the list of repaired defects into known_findings.json (property per fix commit)."""
import json, os, subprocess
P = {
 "7fdb7a6": "C29", "b495fb6": "C29",
 "fc1f231": "C24", "33bcd44": "C24", "c5e7d6f": "C24", "849ca5a": "C24", "23a077a": "C24", "fe836a9": "C24",
 "c301b5d": "C24", "469b854": "C24", "56421eb": "C24", "e523150": "C24", "6898d30": "C24", "745b722": "C24",
 "1f85a32": "C20", "5f7bc3f": "C19", "93da8a7": "C21", "b06c085": "C17", "9f42a55": "C21", "ff90bb7": "C20",
 "602e3c5": "C20", "2c80a52": "C20", "d8646db": "C19", "6f4fddb": "C19", "f580ba1": "C19", "ce0c4fd": "C19",
 "710c392": "C17", "c46d3d5": "C25", "451a50a": "C25", "f843181": "C25", "b68711e": "C25", "176be4a": "C25",
 "369ac80": "C25", "e97a684": "C17", "f686872": "C17", "f8f18b9": "C17", "aad9453": "C17", "1627463": "C28",
 "53f6725": "C15", "bed5e4a": "C15", "8d91a8f": "C15", "82620e6": "C18", "7e0fc15": "C18", "ea45b13": "C18",
 "f8a56b2": "C18", "60212d8": "C22", "6d95cb2": "C22", "2479431": "C22", "7effbc9": "C22", "3cc341a": "C13",
 "459182a": "C13", "082a90f": "C13", "138e7a1": "C12", "3addb0e": "C12", "59362d4": "C11", "48ff555": "C12",
 "7fed9f2": "C05", "1897181": "C09", "253bbb4": "C04", "f32ba12": "C04", "16db192": "C03", "d7bec99": "C10",
 "6165dec": "C03", "4550801": "C03", "37d3458": "C04", "38b3fc4": "C03", "a695748": "C03", "4723de1": "C22"}
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "..", "known_findings.json")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (P[h], h, s[5:]))
d = json.load(open(path))
d["fixed"] = fixed
json.dump(d, open(path, "w"), indent=1)
print(len(fixed))
