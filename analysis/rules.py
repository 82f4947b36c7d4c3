"""Registry: property -> rule."""
import rules_proof, rules_hash, rules_build, rules_tree, rules_gen, rules_store, rules_err, rules_pop, rules_open, rules_iter, rules_conf, rules_shape, rules_lock, rules_ops, rules_valid, rules_accept
ALL = {}
for m in (rules_proof, rules_hash, rules_build, rules_tree, rules_gen, rules_store, rules_err, rules_pop, rules_open, rules_iter, rules_conf, rules_shape, rules_lock, rules_ops, rules_valid, rules_accept):
    for n in dir(m):
        if len(n) == 3 and n[0] == "C" and n[1:].isdigit():
            ALL[n] = getattr(m, n)
