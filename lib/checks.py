"""The checks, one per property."""
import g_exec, g_co, g_pt, g_cdb, g_dec, g_dev, g_handle, g_names

CHECKS, TECHNIQUE, NOTE = {}, {}, {}
for m in (g_exec, g_co, g_pt, g_cdb, g_dec, g_dev, g_handle, g_names):
    for p, f in m.CHECKS.items():
        CHECKS[p], TECHNIQUE[p], NOTE[p] = f, m.TECHNIQUE, m.NOTE
