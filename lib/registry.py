import s_hl, s_l2, s_queue, s_crash, s_aux, s_cube

SCENARIOS = {c.prop: c for c in (s_hl.C01, s_hl.C02, s_l2.C03, s_l2.C04, s_l2.C05, s_l2.C06, s_hl.C07, s_l2.C13, s_queue.C09, s_queue.C10, s_crash.C14, s_aux.C15, s_aux.C16, s_cube.C17)}
