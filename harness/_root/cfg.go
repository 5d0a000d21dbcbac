package dupi

import (
	"os"
	"path/filepath"

	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/internal/vx"
	"github.com/go-air/dupi/token"
)

func verifEqualConfig(a, b *Config) bool {
	return a.IndexRoot == b.IndexRoot && a.SeqLen == b.SeqLen && a.NumShards == b.NumShards &&
		a.NumShatters == b.NumShatters && a.DocFlushRate == b.DocFlushRate &&
		a.TokenConfig.Name == b.TokenConfig.Name && a.BlotConfig.SeqLen == b.BlotConfig.SeqLen &&
		a.BlotConfig.Interleave == b.BlotConfig.Interleave
}

// VerifConfigRoundTrip: P15, a written configuration is read back whatever was there before.
func VerifConfigRoundTrip() {
	root := filepath.Join(vx.TempDir(), "i x\"\u00e9")
	if err := os.Mkdir(root, 0755); err != nil {
		panic(err)
	}
	vary := vx.Choose("vary", 4)
	c := &Config{IndexRoot: root, SeqLen: 6, NumShards: 2, NumShatters: 2, DocFlushRate: 16384,
		TokenConfig: token.Config{Name: "words.simple"},
		BlotConfig:  blotter.Config{SeqLen: 6, Interleave: 1}}
	max := vx.Param("max", 12)
	switch vary {
	case 0:
		c.NumShards = vx.InRange("v", 1, max)
	case 1:
		c.NumShatters = vx.InRange("v", 1, max)
	case 2:
		c.DocFlushRate = vx.InRange("v", 1, max)
	case 3:
		k, m := vx.InRange("k", 1, max), vx.InRange("m", 1, 3)
		c.BlotConfig = blotter.Config{SeqLen: k, Interleave: m}
		c.SeqLen = k * m
	}
	if vx.Bool("before") {
		n := vx.InRange("len", 0, 2)
		d := vx.Bytes("old", n)
		if vx.Bool("long") {
			for len(d) < 1000 {
				d = append(d, "}{\n"...)
			}
		}
		vx.WriteFile(c.Path(), d)
		vx.Reach("overwritten")
	}
	vx.Assert(c.Write() == nil, "writing succeeds")
	r, err := ReadConfig(c.Path())
	vx.Assert(err == nil, "a written configuration is readable")
	vx.Assert(verifEqualConfig(r, c), "reading gives the configuration written")
	r, err = ReadConfigFromRoot(root)
	vx.Assert(err == nil, "a written configuration is readable from the index root")
	vx.Assert(verifEqualConfig(r, c), "reading from the index root gives the configuration written")
	// writing a shorter one over it
	c.DocFlushRate = 3
	vx.Assert(c.Write() == nil, "writing again succeeds")
	r, err = ReadConfig(c.Path())
	vx.Assert(err == nil && verifEqualConfig(r, c), "reading gives the configuration written last")
}

// VerifConfigWindow: P15, every window length is accepted and used throughout.
func VerifConfigWindow() {
	root := filepath.Join(vx.TempDir(), "idx")
	n := vx.Int("n")
	vx.Assume(n >= 1)
	shards := vx.InRange("shards", 1, 3)
	c, err := NewConfig(root, shards, n)
	vx.Assert(err == nil, "every window length is accepted")
	vx.Assert(c.SeqLen == n, "the window is the requested one")
	vx.Assert(c.NumShards == shards, "the number of shards is the requested one")
	vx.Assert(c.BlotConfig.SeqLen*c.BlotConfig.Interleave == n, "fingerprints use the requested window")
	vx.Assert(c.BlotConfig.SeqLen >= 1 && c.BlotConfig.Interleave >= 1, "the fingerprint configuration is usable")
	vx.Assert(c.IndexRoot == root, "the root is the requested one")
	vx.Assert(c.NumShatters >= 1 && c.DocFlushRate >= 1, "the defaults are usable")
}

// VerifConfigInconsistent: P15, inconsistent configurations are refused.
func VerifConfigInconsistent() {
	root := filepath.Join(vx.TempDir(), "idx")
	c, err := DefaultConfig(root)
	vx.Assert(err == nil, "default configuration")
	if vx.Bool("created") {
		c.SeqLen, c.BlotConfig.SeqLen, c.BlotConfig.Interleave = vx.Int("s"), vx.Int("k"), vx.Int("m")
		vx.Assume(c.SeqLen != c.BlotConfig.SeqLen*c.BlotConfig.Interleave)
		x, err := IndexerFromConfig(c)
		vx.Assert(err != nil && x == nil, "an inconsistent configuration is refused when creating")
		_, err = os.Stat(root)
		vx.Assert(os.IsNotExist(err), "nothing is created")
		vx.Reach("created")
		return
	}
	if err := os.Mkdir(root, 0755); err != nil {
		panic(err)
	}
	max := vx.Param("max", 4)
	c.SeqLen, c.BlotConfig.SeqLen, c.BlotConfig.Interleave = vx.InRange("s", 1, max), vx.InRange("k", 1, max), vx.InRange("m", 1, 3)
	ok := c.SeqLen == c.BlotConfig.SeqLen*c.BlotConfig.Interleave
	vx.Assert(c.Write() == nil, "write")
	_, err = ReadConfig(c.Path())
	vx.Assert((err == nil) == ok, "reading accepts consistent configurations only")
	_, err = ReadConfigFromRoot(root)
	vx.Assert((err == nil) == ok, "reading from the root accepts consistent configurations only")
	if !ok {
		_, err = OpenIndex(root)
		vx.Assert(err != nil, "an inconsistent configuration is refused when opening")
		_, err = OpenIndexer(root)
		vx.Assert(err != nil, "an inconsistent configuration is refused when opening for appending")
		vx.Reach("read")
	}
}
