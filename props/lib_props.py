from spec import prop

BASELEN = 52
prop("P01", "lib",
     quick=[("h_codec", n) for n in range(0, 23)] + [("h_codec_win", p, 3) for p in range(0, BASELEN, 3)] +
           [("h_codec_ins", p, 2, 0) for p in range(0, BASELEN, 4)] + [("h_codec_ins", p, 0, 1) for p in range(0, BASELEN)] +
           [("h_codec_any", 1, 2, 3), ("h_codec_any", 2, 1, 1)] + [("h_codec_parts", n) for n in range(0, 12)] +
           [("h_codec_new", o, v) for o in range(0, 5) for v in (0, 2)] +
           [("h_codec_many", k, n, m) for k in range(5) for n, m in ((299, 3), (299, 4), (70000 if k == 2 else 2000, 2))],
     witness={"h_codec": [0, 1], "h_codec_win": [0, 1], "h_codec_ins": [0, 1], "h_codec_any": [0, 2], "h_codec_parts": [0, 1, 2, 3, 4, 5], "h_codec_new": [0, 1], "h_codec_many": [0, 1]})
prop("P03", "lib",
     quick=[("h_reader", n, 3, 0) for n in range(0, 16)] + [("h_reader", n, 3, 3) for n in range(6, 10)] +
           [("h_reader_mix", n, s, k) for n in (1, 2, 3) for s in (0, 1) for k in (0, 2)] +
           [("h_reader_long", n, s) for n in (100, 8170, 8185, 8192, 16400) for s in (0, 1)] +
           [("h_reader_many", n, s, m) for n in (254, 299) for s in (0, 1) for m in (0, 2)] + [("h_reader_many", 1023, 0, 1)],
     witness={"h_reader": [0, 1], "h_reader_mix": [0, 1, 2], "h_reader_long": [0, 1], "h_reader_many": [0, 1]})
prop("P04", "lib",
     quick=[("h_tagpat", n) for n in range(0, 7)] + [("h_tagpat_br", p, n) for p in range(4) for n in range(0, 4)] + [("h_occpat", n) for n in range(0, 9)] +
           [("h_field", fq, tf, of, form, 2) for fq in (0, 2) for tf in (0, 1, 2) for of in range(6) for form in (0, 1)] +
           [("h_field", fq, 0, of, form, 3) for fq in (1, 2) for of in (0, 1, 3, 4) for form in (2, 3)] +
           [("h_field", fq, tf, of, form, 102) for fq in (0, 2) for tf in (0, 2) for of in (1, 3, 4) for form in (0, 3)],
     witness={"h_tagpat": [0, 1, 2, 3], "h_tagpat_br": [0, 1, 2, 3], "h_occpat": [0, 1, 2, 4, 5, 6, 7], "h_field": [0, 1]})
prop("P05", "lib",
     quick=[("h_rel", op, q, ci, ll, 2, 2, cf) for op in range(6) for q in (0, 2) for ci in (0, 1) for ll, cf in ((0, 0), (1, 1), (2, 2), (2, 3))] +
           [("h_fold", op) for op in range(8)] +
           [("h_in", n, q, ci, 2, 2, lf) for n in (0, 1) for q in (0, 1, 2) for ci in (0, 1) for lf in range(4)] +
           [("h_contains", q, ci, 2, 3, lf) for q in (0, 2) for ci in (0, 1) for lf in range(4)] +
           [("h_similar", ci, n, m, q) for ci in (0, 1) for n, m in ((0, 0), (0, 1), (1, 1), (2, 2), (3, 3), (3, 2)) for q in (0, 1)] +
           [("h_card", op, ns, cf, z) for op in range(6) for ns, cf, z in ((0, 0, 0), (3, 1, 0), (3, 4, 1))] +
           [("h_fcard", op, 3, f) for op in range(6) for f in range(3)] +
           [("h_exists", cf, ns) for cf in range(6) for ns in (0, 1, 3)] +
           [("h_regex", p, 99, (p + n) % 3, n, ci, 1, 3) for p in range(16) for n in (0, 1) for ci in (0, 1)] +
           [("h_regex", p, 99, q, n, ci, 2, 1) for p in (0, 3, 9) for q in range(3) for n in (0, 1) for ci in (0, 1)] +
           [("h_regex", p, r, q, n, ci, 2, 1) for p, r in ((1, 2), (3, 11), (6, 10), (12, 0)) for q in (0, 2) for n in (0, 1) for ci in (0, 1)] +
           [("h_rel", op, q, ci, 1, n, 1, 1) for op in range(6) for q in (0, 2) for ci in (0, 1) for n in (101, 201)] + [("h_in", n, q, ci, 201, 2, 0) for n in (0, 1) for q in (0, 2) for ci in (0, 1)] + [("h_contains", q, 0, 201, 1, 1) for q in (0, 2)] + [("h_exists", cf, 201) for cf in range(6)] + [("h_many", op, w, k) for op in range(6) for w in (0, 1) for k in (0, 2)],
     witness={h: [0, 1] for h in ("h_rel", "h_fold", "h_in", "h_contains", "h_similar", "h_card", "h_fcard", "h_exists", "h_regex", "h_many")})
prop("P06", "lib",
     quick=[("h_bool", lv, st, k, kinds, ops) for lv in (0, 1) for st, k, kinds, ops in ((0, 1, 6, 4), (1, 1, 6, 4), (2, 1, 6, 4), (0, 2, 6, 3), (1, 2, 6, 3), (2, 2, 6, 3), (0, 3, 3, 3), (2, 3, 2, 4), (1, 3, 2, 4), (0, 4, 1, 4), (1, 4, 1, 3), (2, 4, 1, 3))] +
           [("h_nest", lv, d, n) for lv in (0, 1) for d in (1, 2, 3) for n in (0, 1, 2)] +
           [("h_history", b, k, lv, d) for b in range(5) for k in (1, 2, 50) for lv, d in ((0, 1), (1, 1))] +
           [("h_build", k, a, b) for k in range(17) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2))],
     witness={h: [0, 1] for h in ("h_bool", "h_nest", "h_history", "h_build")})
prop("P02", "lib",
     quick=[("h_utf8", n, m) for n, m in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (1, 1), (2, 2), (0, 3), (3, 3), (1, 4))] +
           [("h_same", n, m, k) for n, m in ((0, 0), (1, 1), (2, 2), (1, 2), (3, 3), (2, 3)) for k in range(9)] +
           [("h_parts", n, m) for n in range(3) for m in range(3)],
     witness={h: [0, 1] for h in ("h_utf8", "h_same", "h_parts")})
prop("P08", "lib",
     quick=[("h_edit", p, q, nf, k) for p in range(8) for q in (0, 3, 7) for nf in (1, 2, 3) for k in (0, 1, 2, 4) ] +
           [("h_edit", p, q, nf, 3) for p in range(7) for q in (1, 4) for nf in (2, 3)] +
           [("h_edit", p, (0, 3, 7)[p % 3], 101, k) for p in range(8) for k in (0, 1, 2, 4)],
     witness={h: [0, 1] for h in ("h_edit",)})
prop("P09", "lib",
     quick=[("h_path", p, nf, ns, vl) for p in range(11) for nf, ns, vl in ((1, 0, 0), (1, 2, 1), (1, 3, 1), (2, 2, 1), (1, 1, 3))] + [("h_ppn", k, n) for k, n in ((1, 1), (3, 2), (2, 3))] +
           [("h_path", p, nf, ns, 1) for p in range(11) for nf, ns in ((101, 1), (1, 102), (1, 202)) if (p, ns) not in ((2, 102), (2, 202))] + [("h_ppn", k, 102) for k in (1, 3)],
     witness={h: [0, 1] for h in ("h_path", "h_ppn")})
prop("P10", "lib",
     quick=[("h_query", p, q, l, s, m, nf, ns, (p + s) % 2) for p, q, l, nf, ns in ((0, 99, 0, 2, 2), (1, 99, 1, 2, 2), (4, 99, 2, 1, 3), (10, 99, 0, 1, 3), (6, 99, 0, 2, 2), (1, 3, 0, 1, 2), (0, 4, 1, 1, 2), (9, 8, 2, 1, 2), (2, 1, 0, 2, 1), (7, 5, 0, 1, 3), (99, 99, 1, 1, 0)) for s in (0, 1) for m in (0, 1)] +
           [("h_query", p, 99, p % 3, s, m, nf, ns, p % 2) for p in range(11) for nf, ns in ((101, 1), (1, 102), (1, 202)) for s in (0, 1) for m in (0, 1) if p != 2 and (s or ns == 1 or p not in (4, 6, 9, 10))],
     witness={"h_query": [0, 1]})
prop("P11", "lib",
     quick=[("h_format", i, c, o, nf, ns, vl) for i in range(20) for c, o, nf, ns, vl in ((0, 0, 1, 2, 2), (1, 1, 1, 2, 2), (2, 0, 1, 3, 1), (3, 0, 1, 2, 1), (1, 0, 2, 1, 1))] +
           [("h_format", i, 1, o, 1, 1, 3) for i in (0, 5, 6, 7, 12, 14, 15, 16, 17, 18, 19) for o in (0, 1)] +
           [("h_format", i, 1, i % 2, nf, ns, 1) for i in range(20) for nf, ns in ((101, 2), (1, 102), (1, 202))],
     witness={"h_format": [0, 1]})
TL = [[11, 5], [6, 2, 4, 3], [18, 29, 32, 25, 15, 22, 11, 19], [22, 33, 26, 20, 21, 19, 20, 11, 36], [6, 18, 33, 7, 26, 12], [33, 27, 17, 3, 13], [7, 54, 22, 45, 25, 17, 21]]
prop("P07", "lib",
     quick=[("h_text", k, n) for k in range(7) for n in range(0, 4)] + [("h_text", k, 4) for k in (1, 2)] +
           [("h_string", q, n) for q in (0, 1) for n in range(0, 5)] + [("h_number", i, n) for i in range(7) for n in (0, 1, 2)] +
           [("h_tmpl", k, i, p, 2, 2) for k in range(7) for i in range(len(TL[k])) for p in range(TL[k][i] - 1)] +
           [("h_tmpl", k, i, p, 0, 1) for k in range(7) for i in range(len(TL[k])) for p in range(TL[k][i] + 1)] +
           [("h_wide", k, i, p, 2) for k in range(7) for i in range(len(TL[k])) for p in range(0, TL[k][i] + 1) if (k, i) != (3, 8)] +
           [("h_before", k, o, i, p, 1) for k in (2, 3, 4, 6) for o in range(2, 7) for i in range(3) for p in range(0, TL[o][i], 3)],
     witness={"h_text": [0, 1], "h_string": [0, 1], "h_number": [0, 1], "h_tmpl": [0, 1], "h_wide": [0, 1], "h_before": [0, 1]})
