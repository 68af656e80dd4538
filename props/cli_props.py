from spec import prop
prop("P12", "cli",
     quick=[("h_filter", o, (o + 1) % 5, 2, o % 5, 1) for o in range(27)] + [("h_filter", o, e, 1, e, 0) for o in (0, 1, 12, 13, 14) for e in range(5)] + [("h_filter_err", 3, 0), ("h_filter_err", 2, 5)] + [("h_filter", o, e, 1, 5 + e % 2, 1) for o in (0, 1, 4, 5, 6, 7, 11, 12, 13, 14, 22) for e in range(5)] + [("h_filter", o, e, 1, b, 0) for b in (100, 200, 300, 400) for o, e in ((0, 0), (3, 2), (4, 1), (13, 0), (15, 4))],
     witness={"h_filter": [0, 1], "h_filter_err": [0, 1]})
prop("P13", "cli",
     quick=[("h_slice", o, s, n, 3, o % 4, 1) for o in range(9) for s in (0, 1) for n in (0, 1, 2)] + [("h_slice", o, s, n, 2, b, 0) for b in (300, 400) for o, s, n in ((0, 1, 300), (0, 299, 1), (1, 1, 299), (7, 2, 0), (3, 300, 2))],
     witness={"h_slice": [0, 1]})
prop("P14", "cli",
     quick=[("h_split", n, 3, o % 4, 1, o) for n in (1, 2, 3) for o in range(6)] + [("h_partition", 2, s, 1, o) for s in (0, 1, 2) for o in range(7)] + [("h_concat", 3, s, 1, o) for s in (0, 2) for o in range(5)] + [("h_concat", 2, 0, 1, 5), ("h_concat", 2, 2, 1, 5), ("h_concat", 3, 0, 0, 5)] + [("h_split", n, 1, b, 0, 0) for b in (100, 200, 300, 400) for n in (1, 100)] + [("h_partition", 1, b, 0, 0) for b in (100, 200, 300)] + [("h_concat", 1, b, 0, o) for b in (100, 200, 300, 400) for o in range(5)],
     witness={"h_split": [0, 1], "h_partition": [0, 1], "h_concat": [0, 1]})
prop("P15", "cli",
     quick=[("h_invalid", 3, s, o) for s in (0, 1) for o in (0, 1)] + [("h_invalid_any", n, m) for n, m in ((0, 1), (1, 1), (0, 3), (2, 2), (4, 0))] + [("h_invalid", 2, b, o) for b in (100, 200, 300, 400) for o in (0, 1)],
     witness={"h_invalid": [0, 1], "h_invalid_any": [0, 1]})
prop("P16", "cli",
     quick=[("h_sample", n, k, s, 1, c) for n in (1, 2) for k in (1, 2, 3, 4) for s in (0, 3) for c in (0, 1)],
     witness={"h_sample": [0, 1]})
prop("P17", "cli",
     quick=[("h_count", o, s, 2, (o + s) % 7, (o + s) % 3, (s + o // 3) % 2) for o in range(9) for s in range(8) if s in (0, o % 8, (o + 3) % 8)] + [("h_count", o, s, 2, t, o % 3, s % 2) for o in range(9) for s, t in ((0, 8), (5, 10), (o % 8, 8))] + [("h_count", o, 0, 1, b, 0, 0) for b in (100, 200, 300, 400) for o in range(3)],
     witness={"h_count": [0, 1]})
prop("P18", "cli",
     quick=[("h_freq", o, q, (o + q) % 8 if o % 2 else 0, 2, (o + q) % 4, (o + q) % 3, q % 2) for o in range(12) for q in (0, 1)] + [("h_freq", 0, 0, 0, 1, t, 0, 0) for t in (7, 9, 10, 11)] + [("h_freq", o, q, 0, 2, 8, o % 3, o % 2) for o in range(12) for q in (0, 1)] + [("h_freq", o, q, 0, 1, b, 0, 0) for b in (100, 200, 300, 400) for o in range(12) for q in (0, 1) if (o + q) % 3 == b // 100 % 3],
     witness={"h_freq": [0, 1]})
prop("P19", "cli", limit=1_000_000_000,
     quick=[("h_select", o, q, (o + q) % 8 if o % 2 else 0, 2, (o + q) % (4 if q else 3), (o + q) % 3, q % 2) for o in range(9) for q in range(6)] + [("h_select", o, q, 0, 1, t, 0, 0) for o, q, t in ((0, 0, 7), (0, 0, 9), (4, 0, 9), (0, 1, 11), (0, 2, 10), (1, 4, 10), (2, 3, 10))] + [("h_select", o, q, 0, 2, 8, o % 3, o % 2) for o in range(9) for q in (0, 1, 4)] + [("h_select", o, q, 0, 1, b, 0, 0) for b in (100, 200, 300, 400) for o in range(9) for q in range(6) if (o + q) % 4 == b // 100 % 4],
     witness={"h_select": [0, 1]})
prop("P20", "cli",
     quick=[("h_print", s, 2, (s + 2) % 8, s % 3, s % 2) for s in range(8)] + [("h_print", s, k, t, s % 3, s % 2) for s in (0, 1, 5) for k, t in ((2, 8), (1, 9), (1, 10), (1, 11))] + [("h_print", 0, 1, b, 0, 0) for b in (100, 200, 300, 400)],
     witness={"h_print": [0, 1]})
prop("P21", "cli",
     quick=[("h_convert", f, k, s, k % 3, f % 2) for f in range(6) for k, s in ((1, 4), (1, 7), (2, 5), (2, 3), (2, 8), (1, 9), (1, 10), (1, 11))] + [("h_convert", f, 1, b, 0, 0) for f in range(6) for b in (100, 200, 300, 400)],
     witness={"h_convert": [0, 1]})
prop("P22", "cli",
     quick=[("h_describe", o, s, 2, (o + s) % 6, (o + s) % 3) for o in range(5) for s in range(8)] + [("h_describe", o, 0, 1, 6, 0) for o in range(5)] + [("h_describe", o, s, k, t, o % 3) for o in range(5) for s, k, t in ((0, 2, 8), (5, 2, 8), (0, 1, 10))] + [("h_describe", o, 0, 1, b, 0) for o in range(5) for b in (100, 200, 300, 400)],
     witness={"h_describe": [0, 1]})
prop("P23", "cli",
     quick=[("h_hash", o, s, 2, (o + s) % 3, s % 2) for o in range(3) for s in range(8)] + [("h_hash", o, 0, 1, b, 0) for o in range(3) for b in (100, 200, 300, 400)],
     witness={"h_hash": [0, 1]})
prop("P24", "cli",
     quick=[("h_explode", lv, o, st, 0) for lv in range(3) for o in range(7) for st in range(3) if st != 1 or o not in (4, 6) or (lv + o // 2) % 3 == 0] + [("h_explode", lv, o, 3, 1) for lv in range(3) for o in (0, 1)] + [("h_explode", lv, o, 4, 0) for lv in range(3) for o in range(7)],
     thorough=[("h_explode", lv, o, 1, 0) for lv in range(3) for o in (4, 6) if (lv + o // 2) % 3],
     witness={"h_explode": [0, 1]})
prop("P25", "cli",
     quick=[("h_check", rs, o, 2, (rs + o) % 5, o % 2) for rs in range(8) for o in range(8)] + [("h_check", rs, o, 1, b, 0) for rs in range(4) for b in (100, 200, 300, 400) for o in (0, 5)],
     witness={"h_check": [0, 1]})
prop("P26", "cli",
     quick=[("h_chk_allow", n, m, ci) for n, m in ((0, 0), (1, 2), (2, 1)) for ci in (0, 1)] + [("h_chk_dup", n, t, q) for n in (2, 3) for t in (2, 3, 1) for q in (0, 1)] +
           [("h_chk_date", t, p, 2) for t, l in ((0, 10), (1, 13), (2, 8)) for p in range(0, l - 1)] + [("h_chk_isni", p, 1, k) for k, l in ((0, 25), (1, 16), (2, 16)) for p in range(l)] +
           [("h_chk_unicode", n) for n in range(5)] + [("h_chk_form", f, k) for f in range(4) for k in (0, 1)] + [("h_chk_codes", k, n) for k in (0, 1) for n in range(4)],
     witness={h: [0, 1] for h in ("h_chk_allow", "h_chk_dup", "h_chk_date", "h_chk_isni", "h_chk_unicode", "h_chk_form", "h_chk_codes")})
prop("P27", "cli",
     quick=[("h_skip", c, v, 2, c % 2) for c in range(20) for v in range(3)] + [("h_skip", c, v, 1, 300) for c in range(20) if c != 16 for v in range(3)],
     witness={"h_skip": [0, 1]})
prop("P28", "cli",
     quick=[("h_input", c, h, 2, c % 2) for c in range(21) for h in range(4) if (c, h) != (20, 3)] + [("h_input", c, 4, 2 if c == 0 else 1, c % 2) for c in range(21)] + [("h_input", c, h, 1, b) for c in range(21) for h, b in ((c % 4, 300), ((c + 1) % 3, 400), (4, 300)) if c != 16 and (c, b) != (3, 400)] + [("h_gzip", c, h, 2, 0) for c in range(9) for h in (0, 1) if (c, h) not in ((2, 1), (5, 1), (6, 1), (7, 1), (8, 1))],
     thorough=[("h_input", c, 4, 2, c % 2) for c in range(1, 21) if c not in (3, 15)],
     witness={"h_input": [0, 1], "h_gzip": [0, 1]})
prop("P29", "cli",
     quick=[("h_config", 2)] + [("h_config_value", k, n) for k, n in ((0, 4), (0, 5), (0, 0), (1, 3), (1, 4), (1, 2))] + [("h_config_file", n, k) for n in (0, 1) for k in range(12) if n == 0 or k in (0, 1, 2, 4, 6, 9, 11)],
     thorough=[("h_config_file", 1, k) for k in (3, 5, 7, 8, 10)],
     witness={"h_config": [0, 1], "h_config_value": [0, 1], "h_config_file": [0, 1]})
prop("P30", "cli",
     quick=[("h_norm", c, nf, (c + nf) % 4, n) for c in range(18) for nf in range(5) for n in (2, 3)] + [("h_norm_rules", nf, t, n) for nf in range(4) for t in range(4) for n in (2, 3)],
     witness={"h_norm": [0, 1], "h_norm_rules": [0, 1]})
prop("P31", "cli",
     quick=[("h_fault", c, m, 1, 1, 0) for c in range(53) for m in (3, 4)] + [("h_fault", c, m, 1, 1, b) for c in range(53) if c not in (16, 38, 39, 41) for m, b in ((3, 300), (4, 400), (4, 300)) if (c, b) != (3, 400)],
     witness={"h_fault": [0, 1]})
prop("P32", "cli",
     quick=[("h_where", c, o, 2, (c + o) // 2 % 2) for c in range(13) for o in range(13) if (c + o) % 2 == 0] + [("h_where", c, o, 1, 2) for c in range(13) for o in range(13) if (c + o) % 2] + [("h_where", c, o, 1, 300) for c in range(13) for o in range(13) if c != 11 and o not in (8, 9) and (c + o) % 3 == 0],
     thorough=[("h_where", c, o, 2, (c + o) // 2 % 2) for c in range(13) for o in range(13) if (c + o) % 2] + [("h_where", c, o, 1, 2) for c in range(13) for o in range(13) if (c + o) % 2 == 0],
     witness={"h_where": [0, 1]})
prop("P33", "cli",
     quick=[("h_output", c, o, 2 if o in (0, 3, 7) else 1, c % 3 if c < 23 else 1) for c in range(24) for o in range(8)] + [("h_output", c, o, 1, 400) for c in range(24) for o in (0, 3)] + [("h_output", c, o, 1 if c == 20 else 2, 0) for c in (0, 1, 10, 20, 23) for o in (8, 9)] + [("h_outdir", c, o, 2, 0) for c in (0, 1) for o in range(5)],
     thorough=[("h_output", c, o, 2, c % 3) for c in range(24) for o in (1, 2, 4, 5, 6)],
     witness={"h_output": [0, 1], "h_outdir": [0, 1]})
prop("P34", "cli", limit=4_000_000_000,
     quick=[("h_total", c, n, p) for c in range(22) for n, p in ((1, 0), (3, 0), (2, 4), (2, 9), (2, 13), (2, 16))] + [("h_total_arg", c, n) for c in range(30) for n in (0, 1, 2, 3)] + [("h_total_arg", c, n) for c in range(30, 42) for n in (0, 1, 2) if c not in (30, 32) or n < 2] + [("h_total_arg", c, n) for c in (42, 43) for n in (0, 1, 2)] + [("h_total_arg", c, 0) for c in (44, 45)] +
           [("h_total_rules", s, 1, p, 8) for s in range(6) for p in range(8)] + [("h_total_file", n, b) for n in range(4) for b in (0, 1)],
     thorough=[("h_total_file", 4, b) for b in (0, 1)] + [("h_total_arg", c, 4) for c in range(30)] + [("h_total", c, 3, p) for c in range(22) for p in (4, 9, 13)] + [("h_total_rules", s, 2, p, 8) for s in range(6) for p in range(8)],
     witness={h: [0, 1] for h in ("h_total", "h_total_arg", "h_total_rules", "h_total_file")})
