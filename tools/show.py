import json, sys
def ab(x, n=60):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...(%d)" % len(x)
    if isinstance(x, list):
        return [ab(y) for y in x[:12]] + (["...(%d)" % len(x)] if len(x) > 12 else [])
    if isinstance(x, dict):
        return {k: ab(v, 1200 if k in ("prog", "body") else n) for k, v in x.items()}
    return x
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 12
print(json.dumps(ab(d["case"], 300))[:2500])
print("choices", len(d["choices"]), "viol", d["violation"][0][:600], d["faults"][:5])
print("\n".join(t[:160] for t in d["trace"][-min(n, 60):]))
