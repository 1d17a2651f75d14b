package main

// Prop is the check of a property.
type Prop struct {
	jobs    func(h *harness) []Job
	prepare func(h *harness, c *Case)
	extra   func(h *harness) ([]*Violation, map[string]interface{}, error)
	assume  []string
}

var props = map[string]*Prop{
	"C07": {jobs: func(h *harness) []Job {
		return []Job{{Name: "times", Module: "C07", Emit: "Emit"}}
	}},
	"C08": {jobs: func(h *harness) []Job {
		return []Job{{Name: "texts", Module: "C08", Emit: "Emit", Invs: []string{"Decodable"}}}
	}},
	"C09": {jobs: func(h *harness) []Job {
		return []Job{{Name: "nulls", Module: "C09", Emit: "Emit", Invs: []string{"Decodable"}}}
	}},
	"C10": {jobs: func(h *harness) []Job {
		return []Job{{Name: "contents", Module: "C10", Emit: "Emit"}}
	}},
	"C03": {jobs: func(h *harness) []Job {
		return []Job{{Name: "pages", Module: "C03", Emit: "Emit", Invs: []string{"Transparent"}}, scaleJob("03")}
	}},
	"C04": {jobs: func(h *harness) []Job {
		return []Job{{Name: "keys", Module: "C04", Emit: "Emit", Invs: []string{"Permutation"}}}
	}},
	"C05": {jobs: func(h *harness) []Job {
		return []Job{{Name: "arrangements", Module: "C05", Emit: "Emit", Invs: []string{"TreesOk"}}}
	}},
	"C01": {jobs: func(h *harness) []Job { return heapJobs(h, "Emit01") }},
	"C02": {jobs: func(h *harness) []Job { return heapJobs(h, "Emit02") }},
	"C11": {jobs: func(h *harness) []Job {
		return append(heapJobs(h, "Emit11"), Job{Name: "types", Module: "C11", Emit: "Emit", Invs: []string{"Decodable"}})
	}},
	"C12": {jobs: func(h *harness) []Job {
		return []Job{{Name: "types", Module: "C12", Emit: "Emit", Invs: []string{"Unambiguous"}}}
	}},
	"C13": {jobs: func(h *harness) []Job {
		return []Job{{Name: "framing", Module: "C13", Emit: "Emit", Invs: []string{"Framing"}}}
	}},
	"C15": {jobs: func(h *harness) []Job {
		return []Job{{Name: "histories", Module: "C15", Emit: "Emit", Invs: []string{"OneEach"}}}
	}},
	"C16": {jobs: func(h *harness) []Job {
		return []Job{{Name: "filters", Module: "C16", Emit: "Emit"}}
	}},
	"C14": {jobs: func(h *harness) []Job {
		return []Job{{Name: "updates", Module: "C14", Emit: "Emit", Invs: []string{"Unambiguous"}}}
	}},
	"C17": {jobs: func(h *harness) []Job {
		return []Job{{Name: "torn", Module: "C17", Emit: "Emit", Invs: []string{"Prefix", "Unambiguous"}}}
	}},
	"C18": {jobs: func(h *harness) []Job {
		return []Job{{Name: "damaged", Module: "C18", Emit: "Emit", Invs: []string{"Unambiguous"}}}
	}},
	"C19": {jobs: func(h *harness) []Job {
		return []Job{{Name: "damage", Module: "C19", Emit: "Emit", Invs: []string{"Intact"}}}
	}},
	"C20": {jobs: func(h *harness) []Job {
		return []Job{{Name: "inputs", Module: "C20", Emit: "Emit", Invs: []string{"Excl"}}}
	}},
	"C21": {jobs: func(h *harness) []Job {
		return []Job{
			{Name: "pairs", Module: "C21", Emit: "Emit", View: "View", Invs: []string{"ReadOnly"}, Props: []string{"OnlyLogs"}, Consts: map[string]string{"MaxRuns": "2"}},
			{Name: "histories", Module: "C21", Emit: "Emit", Invs: []string{"ReadOnly"}, Sim: 12 + 100*h.deep, Depth: 12, Consts: map[string]string{"MaxRuns": "10"}},
		}
	}},
	"C22": {jobs: func(h *harness) []Job {
		invs := []string{"Gated", "FatalEnds", "Ordered"}
		return []Job{
			{Name: "short", Module: "C22", Emit: "Emit", View: "View22", Invs: invs, Consts: map[string]string{"MaxCalls": pick(h, "3", "4"), "Wide": "0"}},
			{Name: "commands", Module: "C22cli", Emit: "Emit", Invs: []string{"Narrower"}},
			{Name: "long", Module: "C22", Emit: "Emit", Invs: invs, Sim: 60 + 600*h.deep, Depth: 44, Consts: map[string]string{"MaxCalls": "40", "Wide": "1"}},
		}
	}},
	"C06": {jobs: func(h *harness) []Job {
		return []Job{{Name: "numbers", Module: "C06", Emit: "Emit"}}
	}},
}

// heapJobs are the jobs of the heap's state machine.
func heapJobs(h *harness, emit string) []Job {
	invs := []string{"LiveIsTable", "FreeIsGone", "Disjoint", "Sized"}
	c := func(keys, slots, pages, classes, flavours, some, every string) map[string]string {
		return map[string]string{"Keys": keys, "MaxSlots": slots, "MaxPages": pages, "Classes": classes, "Flavours": flavours,
			"Some": some, "Every": every}
	}
	jobs := []Job{
		{Name: "one-page", Module: "Heap", View: "View", Consts: c("3", "3", "1", "{1}", "{1}", pick(h, "1", "1"), "0")},
		{Name: "two-sizes", Module: "Heap", View: "View", Consts: c("2", "3", "1", "{0, 2}", "{3}", pick(h, "5", "1"), "0")},
		{Name: "two-pages", Module: "Heap", View: "View", Consts: c("2", "2", "2", "{0, 2}", "{2}", pick(h, "53", "7"), "0")},
		{Name: "random", Module: "Heap", Sim: 30, Depth: 130, Consts: c("30", "40", "5", "{0, 1, 2, 3}", "{1, 2, 3, 4}", "1", "20")},
	}
	if h.deep > 0 {
		jobs[3].Sim, jobs[3].Depth = 120, 200
		jobs = append(jobs, Job{Name: "three-rows", Module: "Heap", View: "View", Consts: c("3", "3", "2", "{1}", "{4}", "197", "0")})
	}
	if emit == "Emit11" && h.deep == 0 {
		jobs[0].Consts["Some"], jobs[1].Consts["Some"], jobs[2].Consts["Some"] = "3", "11", "131"
	}
	for i := range jobs {
		jobs[i].Emit, jobs[i].Invs = emit, invs
	}
	jobs = append(jobs, Job{Name: "full", Module: "Full", Emit: "Emit", Invs: []string{"Fits"}, Consts: map[string]string{"Which": `"` + emit[4:] + `"`}},
		scaleJob(emit[4:]))
	return jobs
}

// scaleJob reads files of many pages.
func scaleJob(which string) Job {
	return Job{Name: "long-files", Module: "Scale", Emit: "Emit", Invs: []string{"OneUse"}, Consts: map[string]string{"Which": `"` + which + `"`}}
}

// pick returns the value for quick or for thorough runs.
func pick(h *harness, quick, thorough string) string {
	if h.deep > 0 {
		return thorough
	}
	return quick
}
