from specs_core import S
import specs_rel, specs_iter, specs_acc, specs_splice, specs_own, specs_walk, specs_bfs, specs_rc, specs_build, specs_ops, specs_cmp, specs_print, specs_tuple, specs_tbuild
