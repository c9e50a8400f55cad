package main

func init() {
	register("C27", "other", func(e *Env) {
		e.rules = append(e.rules, "the code and a reference function over the same two strings are interpreted side by side over an abstract domain of characters, runs of any length and positions (fixpoint over all strings of any length): both give the same answer, no index or slice is out of bounds, and no loop goes round without advancing")
		e.walks("utils.MatchResource", "utils.zzMatch")
	}, "utils")
}
