#!/usr/bin/env python3
"""reduce.py REPLAY.json|case.c [seconds]: line-wise reduction of a failing differential case (developer aid)."""
import json, os, sys, tempfile, time, importlib
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/lib", H + "/checks"]
import diffrun, cc, re
p = sys.argv[1]
text = json.load(open(p))["text"] if p.endswith(".json") else open(p).read()
w = tempfile.mkdtemp()
cc.build(w)
d = diffrun.Diff(w + "/cc", diffrun.build_harness(w))
n = [0]
def bad(t):
    n[0] += 1
    e = "%s/%d" % (w, n[0]); os.mkdir(e)
    r = d.evaluate([t], e)[0]
    os.system("rm -rf " + e)
    return r[0] == "fail"
end = time.time() + float(sys.argv[2] if len(sys.argv) > 2 else 120)
assert bad(text), "does not fail"
changed = True
def attempt(t):
    global text, changed
    if t != text and len(t) < len(text) and bad(t):
        text = t; changed = True
        return True
    return False
def match(t, i):
    o = t[i]; c = {"(": ")", "{": "}"}[o]; k = 0
    for j in range(i, len(t)):
        if t[j] == o: k += 1
        if t[j] == c:
            k -= 1
            if k == 0: return j
    return None
while changed and time.time() < end:
    changed = False
    L = text.split("\n")
    size = len(L) // 2
    while size:
        i = 0
        while i < len(L) and time.time() < end:
            if attempt("\n".join(L[:i] + L[i + size:])):
                L = text.split("\n")
            else:
                i += max(1, size // 2)
        size //= 2
    i = 0
    while i < len(text) and time.time() < end:
        if text[i] in "({":
            j = match(text, i)
            if j:
                for rep in ((text[i + 1:j], "0", "1", "{}" ) if text[i] == "(" else (text[i + 1:j], "", "{}")):
                    if attempt(text[:i] + rep + text[j + 1:]) : break
                else:
                    if text[i] == "(":
                        b = i
                        ins = text[i+1:j]
                        for m in re.finditer(r" [^ ()]+ |, | \? | : ", ins):
                            if attempt(text[:i] + ins[:m.start()] + text[j+1:]) or attempt(text[:i] + ins[m.end():] + text[j+1:]): break
        if text[i] == ";" or text[i] == "{":
            k = text.find(";", i + 1)
            if k > 0: 
                while attempt(text[:i + 1] + text[k + 1:]):
                    k = text.find(";", i + 1)
                    if k < 0: break
        m = re.match(r"(if|while|else|return|L\d+:|static|unsigned|long|\d\d+\w*|do)\b ?", text[i:])
        if m and (i == 0 or not (text[i-1].isalnum() or text[i-1] in "_@")):
            attempt(text[:i] + text[i + m.end():])
            attempt(text[:i] + "1 " + text[i + m.end():])
        i += 1
print(text)
