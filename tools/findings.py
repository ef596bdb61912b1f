"""Writes known_findings.json from the fix: commits of /repo (run after adding a fix)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "9f522d0": ["L01", "L02"], "dcdfc4c": ["L02"], "f7c0e90": ["L02"], "db3ebc9": ["C05"], "74d2f82": ["C05"], "85f94a7": ["C05", "L03"], "0862894": ["Q03"],
 "aa3c63c": ["C01"], "97ce093": ["C01", "C06"], "e16de87": ["C04"], "1a50c78": ["C08", "C06"], "5e99859": ["C06"], "ac924ed": ["L03"], "d965fe2": ["Q01"],
 "29cfe67": ["T02"], "83b8a03": ["T01"], "793a085": ["T02"], "59003bc": ["L03"], "c102b36": ["C05"], "9ae18ec": ["A01"], "722b410": ["C07"],
 "0367767": ["F07"], "c78ae78": ["F03"], "5401fe0": ["F05"], "5b61235": ["P01"], "351e5be": ["P01"], "a484fb6": ["P01", "P02"], "e18f3a1": ["P01"],
 "470c28c": ["F02"], "361b9c2": ["Q02"], "5c4e5a4": ["F08", "F04"], "88804e8": ["F08"], "6d0bd15": ["X01", "L03"], "e2740ef": ["C05"], "42dc7af": ["D01"],
}
for _p, _hs in {
 "C05": "9fbaade", "C04": "862d412", "F07": "678a3bb",
 "J01": "c7bf9b5 f542c10 1fd2f1c 2cbaf4d 1faf691 257e116 cdb7a7a a65e978 d37118f 90684c8 bb06137 ac96531 d6509ab ea4b45a 54999aa f741c39 e05dd6a",
 "J07": "f322aa2 a65635b",
 "J02": "aa6df4b 3fce910 25a18ce 60c5b14 2ec78af 8e1a581 7caba5c ca9d546",
 "J04": "3d359dc",
 "J03": "2dc3e27 e023c6b efae6ec f9e81f0 d09ef28 94c40df bcbf8f4 dc760f7 fb99819 62992cd 1075b3f 8d9419e",
 "J05": "3479f8f 383a7bf 023f214",
 "J06": "dfbaab3 0af086c af2970f 84c9943",
}.items():
    for _h in _hs.split():
        PROP[_h] = [_p]
PROP["b7b0d12"] = ["F01", "C06"]
PROP["539a114"] = ["F01", "F05"]
PROP["198bd2a"] = ["F05"]
PROP["8a5915a"] = ["P02"]
PROP["4d6a041"] = ["J06"]
PROP["68c8b75"] = ["J01"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for line in reversed(log):
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    props = PROP.get(h[:7]) or (["A01"] if "children_of" in s else ["A02"] if "group_by_span" in s else None)
    assert props, line
    for q in props:
        out.append({"property": q, "key": None, "status": "fixed", "commit": h, "what_fails": s[5:], "text": "fixed: property=%s %s %s" % (q, h, s[5:])})
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
