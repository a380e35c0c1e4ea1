package main

var checks = map[string]*check{}

func register(id string, run func(x *X), assume ...string) {
	checks[id] = &check{id: id, run: run, assume: assume}
}

func assumptionsOf(id string) []string {
	if c := checks[id]; c != nil && c.assume != nil {
		return c.assume
	}
	return []string{}
}
