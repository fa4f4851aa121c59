"""How many simulated runs per build variant the quick tier makes."""
_seq = dict(v1=24000, v2=36000, v3=2500, v4=2500, v5=5000, v6=1500, v7=2000, v8=2500, v9=1500, v10=800, v11=800, v12=3000)
_con = dict(v1=9000, v2=48000, v3=1500, v4=3000, v5=2000, v6=800, v7=1500, v8=1500, v9=800, v10=400, v11=400, v12=6000)
BUDGET = {p: _seq for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09")}
BUDGET.update({p: dict(_con, v13=2000) for p in ("C06", "C11", "C12")})
BUDGET["C09"] = dict(_seq, v3=3500, v7=3000)
BUDGET["C10"] = _con
BUDGET["C16"] = dict(v13=16000)
THOROUGH = 1500  # seconds
# variants left to the thorough tier
THOROUGH_ONLY = {p: ("v8",) if p in ("C02", "C09") else ("v8", "v9") for p in BUDGET}
# runs from a cold start, one process each
_cold = dict(v1=60, v2=240, v4=16, v5=60)
_coldc = dict(v1=60, v2=1200, v4=40, v5=60, v13=40)
COLD = {p: _coldc if p in ("C06", "C11", "C12") else _cold for p in BUDGET}
COLD["C16"] = dict(v13=200)
