import gens_cmp
import gens_norm
import gens_tex

GEN = {}
for m in (gens_cmp, gens_norm, gens_tex):
    GEN.update(m.GEN)
