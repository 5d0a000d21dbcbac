package main

import "fmt"

// Job is one harness run: the function, its bounds and its limits.
type Job struct {
	Prop   string
	Pkg    string // directory in the repository ("" is the root package)
	Fn     string
	Params map[string]int64
	Tier   string // "", quick or thorough
	Bound  string // in words
	Must   []string

	Explore  bool
	NoRace   bool
	RaceStd  bool // accesses by the standard library count too
	Fault    bool // replays need an os package with a hook
	Preempt  int  // preemption bound + 1
	MaxPaths int
	MaxSteps int64
	ConcCap  int
	SolverMS int
	Budget   int // seconds
	Weight   int
	NSample  int
	NoReplay bool
	Cross    int
}

type P = map[string]int64

func Jobs() []Job { return append(append([]Job(nil), jobList...), e2eJobs...) }

// e2e describes jobs that index documents through the library and open the result.
func e2e(prop, fn, tier string, ps ...P) (out []Job) {
	for _, p := range ps {
		get := func(k string, d int64) int64 {
			if v, ok := p[k]; ok {
				return v
			}
			return d
		}
		b := fmt.Sprintf("%d documents of %d words", get("docs", 2), get("words", 2))
		if n := get("pre", 0); n > 0 {
			b += fmt.Sprintf(" after %d fixed documents", n)
		}
		b += fmt.Sprintf(", every hash of every word whose address is %d or %d", get("a", 0), get("b", 1))
		if n := get("mult", 0); n > 0 {
			b = fmt.Sprintf("%d fingerprints dealt to the shards, each in 0..%d of %d documents, any multiple of the space added", get("nf", 2), n, n)
		}
		if c := get("c", -1); c >= 0 {
			b += fmt.Sprintf(" or %d", c)
		}
		b += fmt.Sprintf(" (any multiple of the space added), %d shards, %d shatters, fingerprint window %d, %d streams, ",
			get("nshards", 1), get("nshatters", 1), get("k", 1), get("m", 1))
		b += []string{"", "one session", "every split into sessions", "one session per document", "a last session that adds nothing"}[get("sessions", 1)]
		if get("offset", 1) != 0 {
			b += ", every start offset"
		}
		out = append(out, Job{Prop: prop, Pkg: "", Fn: fn, Tier: tier, Params: p, Bound: b})
	}
	return
}

func cat(js ...[]Job) (out []Job) {
	for _, j := range js {
		out = append(out, j...)
	}
	return
}

var e2eJobs = cat(
	e2e("P03", "VerifAddress", "",
		P{"docs": 2, "words": 3, "a": 65535},
		P{"docs": 2, "words": 3, "nshards": 2, "a": 131070, "b": 65537},
		P{"docs": 2, "words": 3, "nshards": 3, "a": 196607, "b": 65536},
		P{"docs": 2, "words": 2, "nshards": 5, "a": 0, "b": 327679, "c": 4},
		P{"docs": 2, "words": 3, "nshards": 4, "nshatters": 2, "k": 2, "bits": 1, "b": 262142}),
	e2e("P05", "VerifSessions", "",
		P{"docs": 3, "sessions": 2, "rate": 2, "a": 5, "b": 65535},
		P{"docs": 2, "sessions": 2, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "words": 3, "b": 131071},
		P{"docs": 2, "sessions": 3, "pre": 600, "rate": 7, "a": 256, "b": 511},
		P{"docs": 3, "sessions": 3, "short": 0, "words": 2, "b": 3},
		P{"docs": 3, "sessions": 3, "short": 1, "empty": 2, "words": 2, "b": 3},
		P{"docs": 2, "sessions": 4, "words": 3, "a": 17, "b": 4},
		P{"docs": 2, "sessions": 3, "nshards": 3, "words": 2, "a": 2, "b": 196605},
		P{"docs": 2, "sessions": 3, "words": 6, "k": 2, "m": 2, "bits": 1, "b": 9}),
	e2e("P05", "VerifSessions", "thorough",
		P{"docs": 4, "sessions": 2, "rate": 2, "a": 5, "b": 65535},
		P{"docs": 3, "sessions": 2, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "words": 3, "b": 131071},
		P{"docs": 3, "sessions": 2, "words": 3, "nshards": 3, "a": 2, "b": 196605, "c": 1},
		P{"docs": 3, "sessions": 3, "pre": 1100, "rate": 7, "a": 256, "b": 511}),
	e2e("P08", "VerifFound", "",
		P{"docs": 2, "words": 2, "c": 77},
		P{"docs": 3, "words": 2, "a": 65535, "b": 32768, "rate": 1},
		P{"docs": 2, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 2, "words": 6, "nshards": 2, "k": 2, "m": 2, "bits": 1, "b": 65536},
		P{"docs": 2, "words": 2, "nshards": 3, "a": 2, "b": 196607, "sessions": 3},
		P{"docs": 1, "words": 12, "k": 10, "bits": 1, "pre": 3, "b": 4096},
		P{"docs": 2, "words": 4, "m": 2, "short": 0, "nshards": 2, "b": 131070},
		P{"docs": 1, "words": 2, "pre": 600, "rate": 3, "nshatters": 3, "a": 6, "b": 7}),
	e2e("P08", "VerifFound", "thorough",
		P{"docs": 3, "words": 3, "c": 77},
		P{"docs": 4, "words": 2, "nshards": 4, "nshatters": 2, "a": 262143, "b": 65537, "rate": 1},
		P{"docs": 3, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 3, "words": 6, "nshards": 2, "k": 2, "m": 2, "bits": 1, "b": 65536},
		P{"docs": 2, "words": 13, "k": 10, "bits": 1, "pre": 3, "b": 4096},
		P{"docs": 2, "words": 9, "k": 3, "m": 2, "nshards": 4, "bits": 1, "b": 262143},
		P{"docs": 2, "words": 2, "pre": 2000, "rate": 3, "nshatters": 3, "a": 6, "b": 7, "sessions": 3}),
	e2e("P09", "VerifLists", "",
		P{"docs": 2, "words": 2, "c": 77},
		P{"docs": 4, "words": 2, "a": 65535, "b": 32768, "rate": 1},
		P{"docs": 2, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 2, "words": 6, "nshards": 2, "k": 2, "m": 2, "bits": 1, "b": 65536},
		P{"docs": 2, "words": 3, "nshards": 3, "a": 2, "b": 196607},
		P{"docs": 2, "words": 12, "k": 10, "bits": 1, "pre": 3, "b": 4096},
		P{"docs": 3, "words": 4, "m": 2, "short": 1, "empty": 0, "b": 255},
		P{"docs": 3, "words": 2, "sessions": 3, "nshards": 2, "a": 8, "b": 9},
		P{"docs": 1, "words": 2, "pre": 600, "rate": 3, "nshatters": 3, "a": 6, "b": 7}),
	e2e("P09", "VerifLists", "thorough",
		P{"docs": 3, "words": 3, "c": 77},
		P{"docs": 5, "words": 2, "nshards": 4, "nshatters": 2, "a": 262143, "b": 65537, "rate": 1},
		P{"docs": 3, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 3, "words": 6, "nshards": 2, "k": 2, "m": 2, "bits": 1, "b": 65536},
		P{"docs": 3, "words": 13, "k": 10, "bits": 1, "pre": 3, "b": 4096},
		P{"docs": 2, "words": 9, "k": 3, "m": 2, "nshards": 4, "bits": 1, "b": 262143},
		P{"docs": 2, "words": 2, "pre": 2000, "rate": 3, "nshatters": 3, "a": 6, "b": 7, "sessions": 3}),
	e2e("P10", "VerifEnum", "",
		P{"docs": 3, "words": 2, "a": 65535},
		P{"docs": 2, "words": 3, "c": 100, "batch": 2},
		P{"docs": 3, "words": 2, "nshards": 2, "b": 1, "batch": 2},
		P{"docs": 2, "words": 3, "nshards": 3, "a": 65536, "b": 196607, "c": 0, "batch": 1},
		P{"docs": 2, "words": 4, "nshards": 2, "k": 2, "bits": 1, "b": 131071, "batch": 1},
		P{"docs": 2, "words": 2, "pre": 20, "nshards": 2, "batch": 1, "a": 3, "b": 2},
		P{"docs": 1, "words": 2, "pre": 600, "batch": 2},
		P{"docs": 3, "words": 2, "sessions": 3, "nshards": 2, "b": 65536, "batch": 1}),
	e2e("P10", "VerifEnum", "",
		P{"mult": 4, "nf": 4, "nshards": 2, "batch": 1},
		P{"mult": 3, "nf": 3, "nshards": 1, "batch": 2},
		P{"mult": 2, "nf": 3, "nshards": 3, "batch": 2}),
	e2e("P10", "VerifEnum", "thorough",
		P{"mult": 5, "nf": 4, "nshards": 2, "batch": 3},
		P{"mult": 4, "nf": 5, "nshards": 2, "batch": 2},
		P{"mult": 3, "nf": 6, "nshards": 3, "batch": 2},
		P{"docs": 2, "words": 4, "c": 100, "batch": 2},
		P{"docs": 2, "words": 4, "nshards": 3, "a": 65536, "b": 196607, "c": 0, "batch": 1},
		P{"docs": 4, "words": 2, "nshards": 4, "a": 3, "b": 262140, "c": 1, "batch": 3},
		P{"docs": 2, "words": 4, "nshards": 2, "k": 2, "bits": 1, "b": 131071, "c": 4, "batch": 1},
		P{"docs": 2, "words": 3, "pre": 2000, "nshards": 2, "batch": 2}),
	e2e("P11", "VerifBuffers", "",
		P{"docs": 4, "words": 2, "a": 65535, "caps": 2},
		P{"docs": 5, "words": 2, "a": 9, "b": 9, "caps": 3, "batch": 1},
		P{"docs": 3, "words": 3, "nshards": 2, "b": 1, "batch": 2, "caps": 1},
		P{"docs": 3, "words": 2, "nshards": 3, "b": 2, "a": 196606, "batch": 1},
		P{"docs": 2, "words": 4, "nshards": 2, "k": 2, "bits": 1, "b": 131071, "batch": 2},
		P{"docs": 2, "words": 2, "pre": 20, "nshards": 2, "caps": 3},
		P{"docs": 1, "words": 2, "pre": 600, "caps": 1, "batch": 1}),
	e2e("P11", "VerifBuffers", "",
		P{"mult": 4, "nf": 3, "nshards": 2, "batch": 1, "caps": 2},
		P{"mult": 5, "nf": 2, "nshards": 1, "batch": 2, "caps": 3}),
	e2e("P11", "VerifBuffers", "thorough",
		P{"mult": 6, "nf": 4, "nshards": 2, "batch": 2, "caps": 4},
		P{"docs": 5, "words": 2, "c": 65535, "caps": 3},
		P{"docs": 6, "words": 2, "a": 9, "caps": 4, "batch": 1},
		P{"docs": 3, "words": 3, "nshards": 3, "b": 1, "c": 2, "batch": 2, "caps": 2},
		P{"docs": 2, "words": 2, "pre": 1100, "caps": 3, "batch": 2}),
	e2e("P18", "VerifStats", "thorough",
		P{"docs": 4, "sessions": 2, "a": 5, "b": 65535},
		P{"docs": 3, "words": 3, "nshards": 4, "sessions": 2, "a": 1, "b": 2},
		P{"docs": 3, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 2, "sessions": 3, "pre": 1100, "rate": 7, "a": 256, "b": 511}),
	e2e("P18", "VerifStats", "",
		P{"docs": 3, "sessions": 2, "a": 5, "b": 65535},
		P{"docs": 2, "words": 4, "nshards": 2, "nshatters": 2, "k": 2, "bits": 1, "b": 131071},
		P{"docs": 2, "words": 3, "nshards": 3, "sessions": 3, "a": 1, "b": 2},
		P{"docs": 3, "sessions": 3, "short": 0, "empty": 1, "words": 3},
		P{"docs": 2, "sessions": 4, "words": 3, "c": 12},
		P{"docs": 2, "sessions": 3, "pre": 600, "rate": 7, "a": 256, "b": 511}),
	e2e("P08", "VerifFound", "",
		P{"docs": 2, "words": 2, "long": 70000, "b": 65535},
		P{"docs": 3, "words": 2, "bad": 1, "around": 1},
		P{"docs": 1, "words": 2, "pre": 7, "many": 260, "nshatters": 2, "nshards": 2}),
	e2e("P09", "VerifLists", "",
		P{"docs": 3, "words": 2, "bad": 0, "around": 2, "nshards": 2},
		P{"docs": 2, "words": 2, "pre": 7, "many": 3000, "long": 4096, "around": 3}),
	e2e("P05", "VerifSessions", "",
		P{"docs": 3, "sessions": 3, "bad": 1, "around": 1, "b": 9},
		P{"docs": 2, "sessions": 2, "pre": 7, "many": 1500, "around": 2}),
	e2e("P18", "VerifStats", "",
		P{"docs": 3, "sessions": 3, "bad": 1, "b": 9},
		P{"docs": 2, "sessions": 2, "pre": 7, "many": 3000, "nshards": 2}),
	e2e("P10", "VerifEnum", "",
		P{"docs": 2, "words": 2, "pre": 12, "many": 1000, "nshards": 2, "batch": 2}),
	e2e("P11", "VerifBuffers", "",
		P{"docs": 2, "words": 2, "pre": 12, "many": 400, "nshards": 2, "batch": 2, "caps": 2}),
)

var jobList = []Job{
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenize", Params: P{"n": 4}, Bound: "documents up to 4 bytes"},
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenizeLong", Params: P{"n": 1, "sizes": 6}, Must: []string{"long"}, Bound: "any ASCII byte before or after 62..8192 bytes of four kinds of text"},
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenizeLong", Params: P{"n": 2, "sizes": 2, "more": 2}, Must: []string{"long"}, Bound: "any 2 bytes of valid UTF-8 before or after 62..256 bytes of four kinds of text"},
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenizeLong", Params: P{"n": 1}, Tier: "thorough", Must: []string{"long"}, Bound: "any ASCII byte before or after 62..65536 bytes of four kinds of text"},
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenizeLong", Params: P{"n": 3, "sizes": 4, "more": 2}, Tier: "thorough", Must: []string{"long"}, Bound: "any 3 bytes of valid UTF-8 before or after 62..1023 bytes of four kinds of text"},
	{Prop: "P01", Pkg: "token", Fn: "VerifTokenize", Params: P{"n": 5}, Tier: "thorough", Bound: "documents up to 5 bytes"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotLong", Params: P{"sizes": 8}, Must: []string{"long"}, Bound: "words of 7..1025 bytes, one of them any ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotLong", Tier: "thorough", Must: []string{"long"}, Bound: "words of 7..65537 bytes, one of them any ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotWindow", Params: P{"k": 33, "m": 1, "words": 70}, Bound: "window 33, 70 words of one ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotWindow", Params: P{"k": 3, "m": 7}, Bound: "window 3, 7 streams, 44 words of one ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotWindow", Bound: "windows 1..4, streams 1..3, 2*k*m+2 words of one ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotWindow", Params: P{"k": 10, "m": 1}, Bound: "window 10, 22 words of one ASCII byte"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotWindow", Params: P{"k": 2, "m": 2, "len": 3}, Bound: "window 2, 2 streams, words of 3 ASCII bytes"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotCase", Bound: "words of up to 2 arbitrary bytes"},
	{Prop: "P02", Pkg: "blotter", Fn: "VerifBlotConfig", Bound: "every int"},
	{Prop: "P03", Pkg: "", Fn: "VerifSplitJoin", Params: P{"hi": 12}, Bound: "1..12 shards, every fingerprint, every pair"},
	{Prop: "P03", Pkg: "", Fn: "VerifSplitJoin", Params: P{"big": 1}, Bound: "255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535 shards, every fingerprint, every pair"},
	{Prop: "P03", Pkg: "", Fn: "VerifSplitJoin", Params: P{"lo": 13, "hi": 128}, Tier: "thorough", Bound: "13..128 shards, every fingerprint, every pair"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"n": 2}, Bound: "3 posts to one slot, every id and gap"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 504, "prewin": 4, "n": 2}, Bound: "505..508 ids one apart after any first id, then 2 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 508, "prewin": 4, "n": 2}, Bound: "509..512 ids one apart after any first id, then 2 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 1018, "prewin": 8, "n": 1}, Bound: "1019..1026 ids one apart after any first id, then 1 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"n": 3}, Tier: "thorough", Bound: "4 posts to one slot, every id and gap"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 496, "prewin": 4, "n": 3}, Tier: "thorough", Bound: "497..500 ids one apart after any first id, then 3 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 500, "prewin": 4, "n": 3}, Tier: "thorough", Bound: "501..504 ids one apart after any first id, then 3 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 504, "prewin": 4, "n": 3}, Tier: "thorough", Bound: "505..508 ids one apart after any first id, then 3 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 508, "prewin": 4, "n": 3}, Tier: "thorough", Bound: "509..512 ids one apart after any first id, then 3 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 512, "prewin": 4, "n": 3}, Tier: "thorough", Bound: "513..516 ids one apart after any first id, then 3 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 1015, "prewin": 12, "n": 2}, Tier: "thorough", Bound: "1016..1027 ids one apart after any first id, then 2 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifPoster", Params: P{"pre": 1530, "prewin": 12, "n": 2}, Tier: "thorough", Bound: "1531..1542 ids one apart after any first id, then 2 ids with any gaps"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 0, "n": 2, "maxgap": 256}, Bound: "2 posts to slots 0 and ffff, any gap below 256, any upper fingerprint bits"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 1, "n": 1, "sessions": 2, "maxgap": 0x4000}, Bound: "slots 100 and 1, 2 sessions of 1 post, any gap below 2^14"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 2, "n": 1, "sessions": 2, "pre": 511, "maxgap": 256}, Bound: "slots 7fff and 8000, 2 sessions of 512 posts, any gap below 256 (several blocks)"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 0, "n": 1, "start": 0x7fffffff, "maxgap": 0x80000001}, Bound: "one post of any id from 2^31"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 0, "n": 3}, Tier: "thorough", Bound: "3 posts to slots 0 and ffff, any gap below 2^14"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 1, "n": 2, "sessions": 2}, Tier: "thorough", Bound: "slots 100 and 1, 2 sessions of 2 posts, any gap below 2^14"},
	{Prop: "P04", Pkg: "internal/shard", Fn: "VerifShard", Params: P{"slots": 2, "n": 1, "sessions": 3, "pre": 511}, Tier: "thorough", Bound: "slots 7fff and 8000, 3 sessions of 512 posts, any gap below 2^14"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmd", Bound: "up to 5 records of any value, flush rates 1..3, any session split"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmdFar", Bound: "every 32-bit id"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmdMissing", Bound: "tables of up to 25 bytes, every id"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmdMany", Must: []string{"checked"}, Bound: "3000 records, 7 flush rates, one of 13 with arbitrary values"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmdMany", Params: P{"n": 1500, "split": 500}, Must: []string{"checked"}, Bound: "1500 records in 4 sessions, 7 flush rates, one of 13 with arbitrary values"},
	{Prop: "P06", Pkg: "dmd", Fn: "VerifDmdMany", Params: P{"n": 20000, "split": 17000}, Tier: "thorough", Must: []string{"checked"}, Bound: "20000 records in 2 sessions, 7 flush rates, one of 13 with arbitrary values"},
	{Prop: "P07", Pkg: "", Fn: "VerifFnamesLong", Params: P{"sizes": 7}, Must: []string{"checked"}, Bound: "paths of 1, 2, 130 or 300 names of 1..1023 bytes, one arbitrary byte in front or at the end"},
	{Prop: "P07", Pkg: "", Fn: "VerifFnamesLong", Tier: "thorough", Must: []string{"checked"}, Bound: "paths of 1, 2, 130 or 300 names of 1..70000 bytes, one arbitrary byte in front or at the end"},
	{Prop: "P07", Pkg: "", Fn: "VerifFnames", Params: P{"n": 3, "m": 3}, Bound: "two paths of up to 3 arbitrary bytes each, bare, absolute or after a long component"},
	{Prop: "P07", Pkg: "", Fn: "VerifFnamesMany", Bound: "140 paths"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 4, "free": 1, "seps": 2, "repeat": 2}, Bound: "4 words with any hashes or repeats, 2 separators and endings, any offset, any fingerprint; window 1, 1 shard"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 6, "free": 1, "k": 2, "m": 2, "nshards": 3}, Bound: "6 words with any hashes, any offset, any fingerprint; window 2, 2 streams, 3 shards"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 13, "free": 1, "k": 10}, Bound: "13 words with any hashes, any offset, any fingerprint; window 10"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 4, "free": 1, "seps": 4, "file": 2, "upper": 2, "nshards": 2}, Bound: "4 words with any hashes, 4 separators, loaded from the middle of a file, any fingerprint; window 1, 2 shards"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 3, "free": 1, "seps": 4, "file": 1, "k": 2}, Bound: "3 words with any hashes, 4 separators, loaded from a file, any fingerprint; window 2"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocate", Params: P{"words": 2, "free": 1, "k": 2}, Bound: "a document without fingerprints"},
	{Prop: "P13", Pkg: "", Fn: "VerifMatch", Params: P{"words": 3, "passages": 1, "kinds": 7, "seps": 2}, Bound: "3 words, addresses 0 and 1, 1 passage of 8 kinds, 2 separators and endings, any offset; window 1"},
	{Prop: "P13", Pkg: "", Fn: "VerifMatch", Params: P{"words": 3, "repeat": 1}, Bound: "3 words or repeats, addresses 0 and 1, 2 passages of 5 kinds, any offset; window 1"},
	{Prop: "P13", Pkg: "", Fn: "VerifMatch", Params: P{"words": 4, "k": 2, "bits": 1, "nshards": 2, "file": 2, "seps": 2, "passages": 1, "b": 131071}, Bound: "4 words, addresses 0 and 131071, one passage of 5 kinds, loaded from the middle of a file, 2 separators; window 2, 2 shards"},
	{Prop: "P13", Pkg: "", Fn: "VerifMatch", Params: P{"words": 6, "k": 2, "m": 2, "bits": 1, "passages": 1}, Bound: "6 words, addresses 0 and 1, one passage of 5 kinds, any offset; window 2, 2 streams"},
	{Prop: "P13", Pkg: "", Fn: "VerifLocateBroken", Params: P{"file": 2}, Bound: "a missing and a short file"},
	{Prop: "P14", Pkg: "", Fn: "VerifLoad", Params: P{"n": 3, "max": 8}, Bound: "files of up to 3 bytes, every content, every range of up to 8 bytes"},
	{Prop: "P14", Pkg: "", Fn: "VerifLoadBig", Params: P{"sizes": 10}, Must: []string{"range"}, Bound: "files of 511..70001 bytes, 11 places for the start and end of the range, any first and last byte"},
	{Prop: "P14", Pkg: "", Fn: "VerifLoadBig", Tier: "thorough", Must: []string{"range"}, Bound: "files of 511..1048576 bytes, 11 places for the start and end of the range, any first and last byte"},
	{Prop: "P14", Pkg: "", Fn: "VerifLoad", Tier: "thorough", Params: P{"n": 8, "max": 40}, Bound: "files of up to 8 bytes, every content, every range of up to 40 bytes"},
	{Prop: "P15", Pkg: "", Fn: "VerifConfigRoundTrip", Bound: "each field 1..12, streams 1..3, over any previous content of up to 2 bytes or long junk"},
	{Prop: "P15", Pkg: "", Fn: "VerifConfigWindow", Bound: "every positive int"},
	{Prop: "P15", Pkg: "", Fn: "VerifConfigInconsistent", Bound: "creating: every inconsistent triple of ints; reading: 1..4 x 1..4 x 1..3"},
	{Prop: "P16", Pkg: "lock", Fn: "VerifLock", Bound: "2 holders, 4 operations"},
	{Prop: "P16", Pkg: "lock", Fn: "VerifLock", Params: P{"holders": 3, "steps": 5}, Tier: "thorough", Bound: "3 holders, 5 operations"},
	{Prop: "P16", Pkg: "", Fn: "VerifExclude", Bound: "every pair of a holder (creating, appending, reading) and a contender (the same), 4 spellings of the created, 7 of the opened and 7 of the contended root, with symbolic links"},
	{Prop: "P16", Pkg: "", Fn: "VerifExclude", Params: P{"all": 1}, Tier: "thorough", Bound: "the same with each of the 4 spellings of the created for each holder"},
	{Prop: "P16", Pkg: "", Fn: "VerifHolders", Bound: "every history of 4 openings and closings"},
	{Prop: "P16", Pkg: "", Fn: "VerifHolders", Params: P{"steps": 6}, Tier: "thorough", Bound: "every history of 6 openings and closings"},
	{Prop: "P16", Pkg: "", Fn: "VerifLetGo", Params: P{"spellings": 4}, Tier: "thorough", Bound: "the same, 4 spellings"},
	{Prop: "P16", Pkg: "", Fn: "VerifLetGo", Bound: "failing to create (2 obstacles), to close (2 files, created or appended to) and to open (every file missing, damaged or a directory), 2 spellings"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 3, "nshatters": 3}, Bound: "3 documents of 2 words, 3 shatters, 1 shard; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 4, "nshatters": 2}, Bound: "4 documents of 2 words, 2 shatters, 1 shard; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 2, "nshatters": 2, "nshards": 2}, Bound: "2 documents of 2 words, 2 shatters, 2 shards; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 3, "empty": 1, "nshatters": 3}, Bound: "3 documents of 2 words, one of them empty, 3 shatters, 1 shard; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 4, "nshatters": 4}, Tier: "thorough", Bound: "4 documents of 2 words, 4 shatters, 1 shard; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 5, "nshatters": 3}, Tier: "thorough", Bound: "5 documents of 2 words, 3 shatters, 1 shard; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 3, "nshatters": 2, "nshards": 2}, Tier: "thorough", Bound: "3 documents of 2 words, 2 shatters, 2 shards; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 2, "nshatters": 2, "nshards": 2, "words": 3}, Tier: "thorough", Bound: "2 documents of 3 words, 2 shatters, 2 shards; every schedule"},
	{Prop: "P12", Pkg: "", Fn: "VerifSchedule", Explore: true, Params: P{"docs": 2, "nshatters": 2, "nshards": 3}, Tier: "thorough", Bound: "2 documents of 2 words, 2 shatters, 3 shards; every schedule"},
	{Prop: "P28", Pkg: "", Fn: "VerifTogether", Explore: true, RaceStd: true, Params: P{"mult": 2, "nf": 2, "nshards": 2}, Must: []string{"checked"}, Bound: "two fingerprints in 0..2 of 2 documents, 2 shards; two goroutines, each looking up, enumerating, counting, locating or opening another reader; every schedule at operations on shared file offsets and synchronisation"},
	{Prop: "P28", Pkg: "", Fn: "VerifInterleave", Params: P{"pre": 3, "docs": 1, "words": 2, "steps": 3, "offset": 0}, Must: []string{"checked"}, Bound: "3 documents sharing fingerprints and one of 2 words, any order of 3 calls out of five kinds (two enumerations, one with buffers of two, looking up, counting or locating, another reader), then both enumerations to their ends"},
	{Prop: "P28", Pkg: "", Fn: "VerifInterleave", Params: P{"docs": 2, "words": 3, "b": 65535, "steps": 2, "offset": 0}, Must: []string{"checked"}, Bound: "two documents of 3 words, any hash of each word at two addresses, any order of 2 calls"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifTree", Params: P{"dirs": 2, "b": 65535}, Must: []string{"failing", "checked"}, Bound: "a tree of 4 files, an empty file and 4 directories; 6 names of a file, 2 of a directory, 2 of a file in it; none or one of the three unreadable; any hash of a word at two addresses"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifTree", Params: P{"sym": 0, "names": 2, "subs": 1, "empty": 0}, Must: []string{"failing", "checked"}, Bound: "the same with 4 names of the directory"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifNames", Params: P{"b": 65535}, Must: []string{"names", "checked"}, Bound: "24 unusual names of files and directories, any hash of a word at two addresses"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifNames", Params: P{"sym": 0, "names": 0, "deep": 20, "many": 150, "sizes": 5, "bad": 1}, Must: []string{"checked"}, Bound: "20 nested directories, 150 files in one, files of up to 140000 bytes, one that is not text"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifArgs", Params: P{"sym": 0}, Must: []string{"appended", "checked"}, Bound: "a tree of 3 files, 10 ways to name it, with or without a missing path, creating (by option or environment) or appending"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifTree", Tier: "thorough", Params: P{"b": 65535, "subs": 6}, Must: []string{"failing", "checked"}, Bound: "a tree of 4 files, an empty file and 4 directories; 6 names of a file, 4 of a directory, 6 of a file in it; none or one of the three unreadable; any hash of a word at two addresses"},
	{Prop: "P19", Pkg: "cmd/dupi", Fn: "VerifTree", Tier: "thorough", Params: P{"sym": 0, "nshards": 3}, Must: []string{"failing", "checked"}, Bound: "the same on 3 shards"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifBlot", Params: P{"k": 2, "free": 1}, Must: []string{"printed"}, Bound: "a file of up to 4 words, window 2, every hash of every word, three orders of separators, with and without text around"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifBlot", Params: P{"k": 1, "m": 2, "nshards": 3, "free": 1, "seps": 1, "files": 2, "min": 2, "more": 1}, Must: []string{"printed"}, Bound: "two files of 2 or 3 words, two streams of window 1, every hash of every word, 3 shards"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifUnblot", Params: P{"b": 0xabc, "words": 2}, Must: []string{"several texts", "shared"}, Bound: "two documents of 3 and 2 words, the second any choice of the words of the first, window 1, two separators, any hash of each word at two addresses"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifUnblot", Params: P{"docs": 3, "pool": 2, "words": 2, "head": 1, "nshards": 2, "joints": 1, "a": 3, "b": 65538}, Must: []string{"several texts", "shared"}, Bound: "three documents of 2 words at an offset in their files, window 1, any hash of each word at two addresses, 2 shards"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifBlot", Tier: "thorough", Params: P{"k": 2, "free": 1, "more": 4}, Must: []string{"printed"}, Bound: "a file of up to 6 words, window 2, every hash of every word, separators from a set"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifUnblot", Tier: "thorough", Params: P{"b": 0xabc}, Must: []string{"several texts", "shared"}, Bound: "two documents of 3 words, the second any choice of the words of the first, window 1, two separators, any hash of each word at two addresses"},
	{Prop: "P20", Pkg: "cmd/dupi", Fn: "VerifUnblot", Tier: "thorough", Params: P{"docs": 3, "pool": 3, "k": 2, "bits": 1, "b": 0xabc}, Must: []string{"several texts"}, Bound: "three documents of 3 words, window 2, two separators"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLike", Params: P{"pool": 2, "words": 3, "qmin": 2, "qwords": 3, "qjoints": 1, "b": 0xabc}, Must: []string{"listed"}, Bound: "two documents of 2 and 3 words and a file of 2 or 3 words, any choice of two words, two separators in one document, window 1, any hash of each word at two addresses"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLike", Params: P{"words": 2, "qmin": 2, "qwords": 2, "joints": 1, "qhead": 1, "head": 1, "nshards": 2, "a": 1, "b": 131070}, Must: []string{"listed"}, Bound: "documents of 3 and 2 words at an offset in their files and a file of 2 words, any choice of three words, window 1, any hash of each word at two addresses, 2 shards"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLike", Params: P{"docs": 1, "qmin": 0, "qwords": 2, "b": 65535}, Must: []string{"listed"}, Bound: "a document of 3 words and a file of up to 2 words, any choice of three words, two separators, window 1"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLikeMany", Params: P{"b": 0xabc, "words": 2, "shift": 1}, Must: []string{"listed"}, Bound: "6 documents, two passages of the file each in the first or last 0..6 of them, window 1, any hash of each word at two addresses"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLikeMany", Tier: "thorough", Params: P{"b": 0xabc, "c": 5, "docs": 5}, Must: []string{"listed"}, Bound: "5 documents, three passages of the file each in the first 0..5 of them, window 1, any hash of each word at three addresses"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLike", Tier: "thorough", Params: P{"docs": 3, "pool": 2, "words": 3, "qwords": 4, "b": 0xabc}, Must: []string{"listed"}, Bound: "three documents of up to 3 words and a file of up to 4 words, any choice of two words, two separators, window 1"},
	{Prop: "P21", Pkg: "cmd/dupi", Fn: "VerifLike", Tier: "thorough", Params: P{"docs": 2, "pool": 3, "words": 3, "k": 2, "bits": 1, "qmin": 3, "qwords": 3, "qjoints": 1, "b": 0xabc}, Must: []string{"listed"}, Bound: "two documents of 3 words and a file of 3 words, any choice of three words, two separators in the document, window 2"},
	{Prop: "P24", Pkg: "cmd/dupi", Fn: "VerifExtract", Params: P{"nf": 3, "mult": 4}, Must: []string{"above", "below"}, Bound: "3 fingerprints each in 0..4 of 4 documents, six values of sigma, three outputs"},
	{Prop: "P24", Pkg: "cmd/dupi", Fn: "VerifExtract", Params: P{"nf": 3, "mult": 3, "nshards": 2, "sigmas": 3}, Must: []string{"above", "below"}, Bound: "3 fingerprints on 2 shards each in 0..3 of 3 documents, three values of sigma, three outputs"},
	{Prop: "P24", Pkg: "cmd/dupi", Fn: "VerifExtract", Tier: "thorough", Params: P{"nf": 4, "mult": 5}, Must: []string{"above", "below"}, Bound: "4 fingerprints each in 0..5 of 5 documents, six values of sigma, three outputs"},
	{Prop: "P27", Pkg: "cmd/dupi", Fn: "VerifRoots", Must: []string{"inspected", "appended", "checked"}, Bound: "6 ways to name the index, 3 of the environment, all six verbs"},
	{Prop: "P27", Pkg: "cmd/dupi", Fn: "VerifCreate", Must: []string{"chosen", "file"}, Bound: "4 places for the index, 6 choices of options"},
	{Prop: "P18", Pkg: "cmd/dupi", Fn: "VerifInspect", Params: P{"b": 65538, "nshards": 2}, Must: []string{"shared", "checked"}, Bound: "3 documents of 1 to 3 words, any hash of each word at two addresses, 2 shards; text and JSON"},
	{Prop: "P27", Pkg: "cmd/dupi", Fn: "VerifBroken", Must: []string{"checked"}, Bound: "any file of the index gone, empty or cut to half, 6 questions"},
	{Prop: "P27", Pkg: "cmd/dupi", Fn: "VerifVerbs", Must: []string{"checked"}, Bound: "19 commands that cannot be done"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Must: []string{"checked"}, Bound: "any byte at one of 9 places of any file of an index of 3 documents"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"mode": 1}, Must: []string{"checked", "refused"}, Bound: "any file cut at one of 9 places"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"mode": 2, "n": 3}, Must: []string{"checked", "refused"}, Bound: "any file replaced by up to 3 bytes"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"mode": 3, "n": 2, "near": 1, "far": 4}, Must: []string{"checked", "refused"}, Bound: "any file cut at one of 6 places, then 2 arbitrary bytes and 16 zeros"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"n": 2, "near": 24, "far": 24}, Must: []string{"checked"}, Bound: "any two bytes at one of 49 places of any file of an index of 3 documents"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"split": 1, "near": 12, "far": 0}, Must: []string{"checked"}, Bound: "any byte at one of 13 places of any file of an index of 3 documents added in as many sessions"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"append": 1, "split": 1, "near": 12, "far": 0}, Must: []string{"opened"}, Bound: "the same, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"split": 1, "near": 32, "far": 32}, Must: []string{"checked"}, Bound: "any byte at one of 65 places of any file of an index of 3 documents added in as many sessions"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"append": 1, "split": 1, "near": 32, "far": 32}, Must: []string{"opened"}, Bound: "the same, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"append": 1}, Must: []string{"opened"}, Bound: "any byte at one of 9 places of any file, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"append": 1, "mode": 1, "near": 8, "far": 8}, Must: []string{"refused", "opened"}, Bound: "any file cut at one of 17 places, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"append": 1, "mode": 2, "n": 3}, Must: []string{"refused"}, Bound: "any file replaced by up to 3 bytes, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"n": 2, "near": 8, "far": 12}, Must: []string{"checked"}, Bound: "any two bytes at one of 21 places of any file of an index of 3 documents"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"mode": 2, "n": 5}, Must: []string{"checked", "refused"}, Bound: "any file replaced by up to 5 bytes"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"mode": 3, "n": 3, "near": 3, "far": 24}, Must: []string{"checked", "refused"}, Bound: "any file cut at one of 28 places, then 3 arbitrary bytes and 16 zeros"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Tier: "thorough", Params: P{"append": 1, "n": 2, "near": 24, "far": 24}, Must: []string{"opened"}, Bound: "any two bytes at one of 49 places of any file, opened for appending"},
	{Prop: "P25", Pkg: "", Fn: "VerifDamage", MaxSteps: 60e6, Params: P{"mode": 4, "near": 4, "far": 12}, Must: []string{"checked"}, Bound: "a run of 1, 4, 7, 8 or 9 bytes 0, 0xff or 0x80 and any byte after it at one of 17 places of any file"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"rate": 1}, Must: []string{"reported"}, Bound: "creating an index of 2 documents, each flushed: any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 2, "rate": 2, "docs": 3}, Must: []string{"reported"}, Bound: "appending 3 documents to 2: any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 1, "kind": 1, "modes": 2}, Must: []string{"reported"}, Bound: "appending 2 documents to 1: any of the first 8, last 8 and 4 other reads of each file fails, once or from then on"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"pre": 600, "docs": 1, "rate": 400, "near": 6, "modes": 2}, Must: []string{"reported"}, Bound: "creating an index of 601 documents (posts flushed while adding): any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"nshards": 2, "nshatters": 2, "near": 4}, Must: []string{"reported"}, Bound: "creating an index of 2 documents, 2 shards: any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 1, "pre": 600, "kind": 1, "near": 4, "modes": 2}, Must: []string{"reported"}, Bound: "appending 2 documents to 601 (several blocks): any of the first 8, last 8 and 4 other reads of each file fails, once or from then on"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 1, "pre": 600, "docs": 20, "words": 2, "near": 8}, Tier: "thorough", Must: []string{"reported"}, Bound: "appending 20 documents to 601: any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 2, "nshards": 3, "nshatters": 2, "docs": 3, "rate": 1}, Tier: "thorough", Must: []string{"reported"}, Bound: "appending 3 documents to 2, 3 shards: any of the first 8, last 8 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"base": 2, "nshards": 3, "nshatters": 2, "docs": 3, "kind": 1, "modes": 2}, Tier: "thorough", Must: []string{"reported"}, Bound: "appending 3 documents to 2, 3 shards: any of the first 8, last 8 and 4 other reads of each file fails, once or from then on"},
	{Prop: "P17", Pkg: "", Fn: "VerifFault", Fault: true, Params: P{"docs": 6, "rate": 1, "near": 30}, Tier: "thorough", Must: []string{"reported"}, Bound: "creating an index of 6 documents, each flushed: any of the first 30, last 30 and 4 other changes to each file fails, once, from then on or half done"},
	{Prop: "P26", Pkg: "", Fn: "VerifRemove", Bound: "6 spellings of the root, removed after creating, appending, opening, and opening and moving away, from 2 directories; 15 neighbouring files and directories"},
	{Prop: "P26", Pkg: "", Fn: "VerifRemoveCopy", Bound: "3 names of the copy, opened for reading or appending"},
	{Prop: "P22", Pkg: "attic/ibloom", Fn: "VerifBloom", Bound: "0..3 hash functions, filters of 1, 2, 4 or 8 bytes, every prior content, every two values"},
	{Prop: "P22", Pkg: "attic/ibloom", Fn: "VerifBloom", Params: P{"mb": 3, "k": 1}, Bound: "0..1 hash functions, a filter of 3 bytes"},
	{Prop: "P22", Pkg: "attic/ibloom", Fn: "VerifBloom", Tier: "thorough", Params: P{"mb": 3, "k": 3}, Bound: "0..3 hash functions, a filter of 3 bytes"},
	{Prop: "P22", Pkg: "attic/ibloom", Fn: "VerifBloom", Tier: "thorough", Params: P{"mb": 5, "k": 3}, Bound: "0..3 hash functions, a filter of 5 bytes"},
	{Prop: "P22", Pkg: "attic/ibloom", Fn: "VerifBloomName", Bound: "names of up to 5 bytes"},
	{Prop: "P22", Pkg: "attic", Fn: "VerifBposts", Bound: "1..2 hash functions, filters of 1 or 2 bytes, up to 3 values on the left, 2 on the right"},
	{Prop: "P22", Pkg: "attic", Fn: "VerifBposts", Params: P{"mb": 4, "k": 3, "adds": 3}, Tier: "thorough", Bound: "1..3 hash functions, a filter of 4 bytes, up to 4 values on the left"},
	{Prop: "P22", Pkg: "attic", Fn: "VerifBpostsOnes", Params: P{"mb": 1}, Bound: "every filter of one byte"},
	{Prop: "P22", Pkg: "attic", Fn: "VerifBpostsOnes", Params: P{"mb": 3, "zero": 0x7c}, Bound: "filters of 3 bytes with bits 0, 1 and 7"},
	{Prop: "P22", Pkg: "attic", Fn: "VerifBpostsOnes", Params: P{"mb": 2}, Tier: "thorough", Bound: "every filter of 2 bytes"},
	{Prop: "P23", Pkg: "attic/trigram", Fn: "VerifTrigram", Params: P{"total": 2}, Bound: "up to 3 tokens of up to 2 bytes, 2 bytes in all, every byte value"},
	{Prop: "P23", Pkg: "attic/trigram", Fn: "VerifTrigram", Tier: "thorough", Params: P{"toks": 4, "total": 3}, Bound: "up to 4 tokens of up to 2 bytes, 3 bytes in all, every byte value"},
	{Prop: "P23", Pkg: "attic/trigram", Fn: "VerifTrigramStep", Bound: "one letter from every trigram code (an induction step: any length)"},
}
