From 71218ae727681d12ef4193e4fbf9979eb87f0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 01/28] fix: token: keep the last rune of every document

---
 token/t.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/t.go b/token/t.go
index b5ff4af..55c5a1e 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,6 +86,8 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
+	// the loop leaves i at the start of the last rune.
+	i = len(d)
 	if j < i {
 		if inWord {
 			dst = append(dst,
-- 
2.43.0


From 649856d5778ece4c36013982c1e589435de5b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 02/28] fix: FindBlots: token positions are relative to the
 file, doc.Dat to the document

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index d04621b..f100c16 100644
--- a/index.go
+++ b/index.go
@@ -220,7 +220,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
-- 
2.43.0


From baa375ee3c7faab1645b4801c0b6058fecb6a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 03/28] fix: NewConfig: use the requested window for the
 blotter too

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 36ded45..2bbba69 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e58c4d7c40405cd0280de1adb30453db7ed48625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 04/28] fix: dmd: NumDocs must not count the unused record 0

---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..e5ed355 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -44,7 +44,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // record 0 is never used for a document
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 619965175f9b2ad1e65d81fb4f0c73749036bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 05/28] fix: lock: Unlock must release the lock

---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From 1e9f256dfbbd8280e9df91da5e4cf8eb99e80c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 06/28] fix: OpenIndexer must take the exclusive lock

---
 indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fdfceb9..fa014cc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -121,7 +121,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5ca62c40c9af207cfc8bacd72a9fac247fba96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 07/28] fix: one lock file per index, however its path is
 spelled

---
 config.go | 2 +-
 index.go  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 2bbba69..037ee17 100644
--- a/config.go
+++ b/config.go
@@ -88,7 +88,7 @@ func (cfg *Config) Path() string {
 }
 
 func (cfg *Config) LockPath() string {
-	return cfg.IndexRoot + ".lock"
+	return filepath.Clean(cfg.IndexRoot) + ".lock"
 }
 
 func (cfg *Config) DmdPath() string {
diff --git a/index.go b/index.go
index f100c16..e19f103 100644
--- a/index.go
+++ b/index.go
@@ -37,8 +37,10 @@ type Index struct {
 }
 
 func OpenIndex(root string) (*Index, error) {
-	var err error
-	cfg := &Config{IndexRoot: root}
+	cfg, err := DefaultConfig(root)
+	if err != nil {
+		return nil, err
+	}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From d2d66fa52c985349057daffc12faea88282a243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 08/28] fix: release the lock when opening or creating an index
 fails

---
 index.go   |  7 ++++++-
 indexer.go | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/index.go b/index.go
index e19f103..a2e6848 100644
--- a/index.go
+++ b/index.go
@@ -36,7 +36,7 @@ type Index struct {
 	shards []shard.Index
 }
 
-func OpenIndex(root string) (*Index, error) {
+func OpenIndex(root string) (idx *Index, err error) {
 	cfg, err := DefaultConfig(root)
 	if err != nil {
 		return nil, err
@@ -46,6 +46,11 @@ func OpenIndex(root string) (*Index, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
diff --git a/indexer.go b/indexer.go
index fa014cc..76bb122 100644
--- a/indexer.go
+++ b/indexer.go
@@ -39,13 +39,17 @@ type Indexer struct {
 	fnames  *fnames
 }
 
-func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func IndexerFromConfig(cfg *Config) (idx *Indexer, err error) {
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -113,14 +117,18 @@ func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
 // opens an index from a config.  cfg
 // actually is read from the index as a first
 // step, and this completes opening.
-func openFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func openFromConfig(cfg *Config) (idx *Indexer, err error) {
 	res := &Indexer{config: cfg}
 	// lock file
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4ee3f78fac6085ed5f4544c11e02958a9a6beabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/28] fix: shard: report posts that could not be stored

---
 internal/shard/indexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..86d6bc0 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -31,6 +31,7 @@ type Indexer struct {
 	ind     [1 << 16]poster
 
 	postFile *os.File
+	err      error // first error adding a post
 }
 
 func (x *Indexer) initCommon(id uint32, root string, flushRate uint32) {
@@ -114,7 +115,10 @@ func (x *Indexer) Close() error {
 	if err := x.flushInd(); err != nil {
 		return err
 	}
-	return x.flushIix()
+	if err := x.flushIix(); err != nil {
+		return err
+	}
+	return x.err
 }
 
 func (x *Indexer) flushIix() error {
@@ -170,6 +174,9 @@ func (x *Indexer) Serve() {
 			err := x.ind[hash].AddPost(docid, x.postFile)
 			if err != nil {
 				log.Printf("couldn't add post: %s", err)
+				if x.err == nil {
+					x.err = err
+				}
 			}
 		}
 		x.postChn <- nil
-- 
2.43.0


From 664fab294036fe912a0beb5df3026c642ebdb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 10/28] fix: Query.Next: advance once per blot and keep a last
 page of one document

---
 query.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/query.go b/query.go
index 115a5a7..a739f20 100644
--- a/query.go
+++ b/query.go
@@ -108,12 +108,16 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		pos := state.i
+		_, err = q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
 			return
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
+		if shardState.Total <= 1 || len(dstBlot.Docs) == 0 {
+			// fillBlot advances when it reaches the end of the posts.
+			if state.shardStates[pos] == shardState {
+				q.advance(shardState, pos)
+			}
 			if lim {
 				dstBlot.Docs = dstBlot.Docs[:0]
 			} else {
-- 
2.43.0


From ef40f2f80be338d83ea29b35b14a4b650b053ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 11/28] fix: Query.Next: report the end again instead of
 looping forever

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index a739f20..0495be0 100644
--- a/query.go
+++ b/query.go
@@ -94,7 +94,7 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 		shardState := state.shardStates[state.i]
 		if shardState == nil {
 			state.nilCount++
-			if state.nilCount == state.n {
+			if state.nilCount >= state.n {
 				if n == 0 {
 					err = io.EOF
 					return
-- 
2.43.0


From 6ee7b7c0bfe9de72c65043e5c5ab2b6381b33d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 12/28] fix: Blot.Next: do not keep the data of a previous
 document

---
 blot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blot.go b/blot.go
index 8bc4915..2770c1c 100644
--- a/blot.go
+++ b/blot.go
@@ -48,6 +48,7 @@ func (b *Blot) Next(lim bool) *Doc {
 	n := len(b.Docs)
 	if lim {
 		b.Docs = b.Docs[:n+1]
+		b.Docs[n] = Doc{}
 	} else {
 		b.Docs = append(b.Docs, Doc{})
 	}
-- 
2.43.0


From 91dd68f92166aa5d73d1eb753fb9cb27e97033c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 13/28] fix: Config.Write: truncate a longer previous
 configuration

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 037ee17..407a80c 100644
--- a/config.go
+++ b/config.go
@@ -139,7 +139,7 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e67a08b0fcd4aeace461df20d52cc2f5b9277c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 14/28] fix: dupi blot -offsets: blots span words, not tokens

---
 cmd/dupi/blot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..21734a2 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -71,7 +71,11 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	blots := idx.BlotDoc(nil, doc)
 	var toks []token.T
 	if *bc.offsets {
-		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		for _, tok := range idx.TokenFunc()(nil, doc.Dat, 0) {
+			if tok.Tag == token.Word {
+				toks = append(toks, tok)
+			}
+		}
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From e5a676a7c77e6397f249651ef03b2e7f05f7320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 15/28] fix: dupi index: report files that cannot be opened or
 added

---
 cmd/dupi/index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..95cc2d4 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -139,6 +139,8 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	if werr := filepath.WalkDir(fpath, x.mkWalkFn(&err)); werr != nil {
+		return werr
+	}
 	return err
 }
-- 
2.43.0


From 54135f20990b6984584f71d12c3e29170990ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 16/28] fix: dupi index: index the parent directory when asked
 to

---
 cmd/dupi/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 95cc2d4..c531148 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -109,7 +109,7 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 			*perr = err
 			return fs.SkipDir
 		}
-		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 {
+		if name := entry.Name(); strings.HasPrefix(name, ".") && name != "." && name != ".." {
 			if entry.IsDir() {
 				return fs.SkipDir
 			}
-- 
2.43.0


From d759b5ada81049acc91cdabf859c063439242904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 17/28] fix: trigram: FromTokens must not drop elements of dst

---
 attic/trigram/t.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/trigram/t.go b/attic/trigram/t.go
index 0756b1f..4dde22c 100644
--- a/attic/trigram/t.go
+++ b/attic/trigram/t.go
@@ -109,7 +109,7 @@ func FromTokens(dst []T, toks []token.T) []T {
 	for _, tok := range toks {
 		tri, dst = FromToken(dst, tri, tok)
 	}
-	return dst[2:]
+	return dst
 }
 
 func FromToken(dst []T, start T, tok token.T) (T, []T) {
-- 
2.43.0


From da40a40b7d616793a09b3acd4f5e73017f694e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 18/28] fix: shard: report damaged posting lists instead of
 panicking or looping

---
 internal/shard/poster.go | 7 +++----
 internal/shard/posts.go  | 9 ++++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..37287f1 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -118,10 +118,7 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
-		if v <= 8 {
+		if v <= 8 || v > int64(len(buf)) {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
 		_, err = f.ReadAt(buf[:v], head+n)
@@ -132,6 +129,8 @@ func (p *poster) readToLink(f *os.File) error {
 		if link == -1 {
 			p.link = head + n + v - 8
 			return nil
+		} else if link <= head {
+			return fmt.Errorf("%s: invalid link of flushed post buffer: %d", p, link)
 		} else {
 			head = link
 		}
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..6379f62 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,9 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 || v > int64(len(p.buf)) {
+		return fmt.Errorf("invalid length of post block: %d", v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
@@ -120,7 +123,11 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
+	link := int64(binary.BigEndian.Uint64(buf[i:]))
+	if link != -1 && link <= p.nextpos {
+		return fmt.Errorf("invalid link of post block: %d", link)
+	}
+	p.nextpos = link
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From 42e14f3b6e7a31d65aee78c284a0ebbe59e4733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 19/28] fix: report damaged path tables and path ids instead of
 panicking

---
 fnames.go | 26 ++++++++++++++------------
 index.go  |  3 +++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/fnames.go b/fnames.go
index 8205c2c..17789e3 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,33 +124,35 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	n := v
+	if n == 0 {
+		return nil, fmt.Errorf("path table without root")
+	}
 	s := &fnames{}
-	s.d = make([]fname, v)
-	var buf []byte
-	for i := range s.d {
+	var buf bytes.Buffer
+	for i := uint32(0); i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
-		}
-		_, err = io.ReadFull(r, buf[:v])
+		buf.Reset()
+		_, err = io.CopyN(&buf, r, int64(v))
 		if err != nil {
 			return nil, err
 		}
-		fname := &s.d[i]
-		fname.name = string(buf[:v])
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		fname.parent = v
-		pname := &s.d[fname.parent]
+		if v >= i && (v != 0 || i != 0) {
+			return nil, fmt.Errorf("path %d has invalid parent %d", i, v)
+		}
+		s.d = append(s.d, fname{name: buf.String(), parent: v})
+		pname := &s.d[v]
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[s.d[i].name] = i
 	}
 	return s, nil
 }
diff --git a/index.go b/index.go
index a2e6848..2571ea8 100644
--- a/index.go
+++ b/index.go
@@ -299,6 +299,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if uint64(fid) >= uint64(len(x.fnames.d)) {
+		return fmt.Errorf("docid2Doc(%d) dmd gave unknown path %d", did, fid)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
-- 
2.43.0


From 15670612a2bf076a318eb41b32b0a3d21b8586f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 20/28] fix: refuse configurations that cannot work, also when
 creating an index

---
 config.go  | 12 ++++++++++++
 indexer.go |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/config.go b/config.go
index 407a80c..966795e 100644
--- a/config.go
+++ b/config.go
@@ -80,6 +80,18 @@ func (cfg *Config) check() error {
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
+	if cfg.BlotConfig.Interleave < 1 || cfg.BlotConfig.SeqLen < 1 {
+		return fmt.Errorf("invalid sequence config")
+	}
+	if cfg.NumShards < 1 || cfg.NumShards >= 1<<16 {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatters: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
 	return nil
 }
 
diff --git a/indexer.go b/indexer.go
index 76bb122..8a5c525 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,6 +40,9 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (idx *Indexer, err error) {
+	if err = cfg.check(); err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From aba8616ca7b75b9142d157232da445a37e3a6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 21/28] fix: use the files of the index that was opened,
 however it is reached

---
 config.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 966795e..7dc3056 100644
--- a/config.go
+++ b/config.go
@@ -100,7 +100,11 @@ func (cfg *Config) Path() string {
 }
 
 func (cfg *Config) LockPath() string {
-	return filepath.Clean(cfg.IndexRoot) + ".lock"
+	root := filepath.Clean(cfg.IndexRoot)
+	if real, err := filepath.EvalSymlinks(root); err == nil {
+		root = real
+	}
+	return root + ".lock"
 }
 
 func (cfg *Config) DmdPath() string {
@@ -124,7 +128,14 @@ func ReadConfigFromRoot(root string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	abs := cfg.IndexRoot
+	cfg, err = ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	// the index may have been copied or moved.
+	cfg.IndexRoot = abs
+	return cfg, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
-- 
2.43.0


From c636ad73816abf8342dfdf4400c4e673eae9a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 22/28] fix: dmd: do not allocate by the configured flush rate

---
 dmd/adder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..dccb83a 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -34,7 +34,7 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	adder := &Adder{path: path, flushRate: ufr}
 	fi, err := os.Stat(path)
 	if os.IsNotExist(err) {
-		adder.buf = make([]fields, 1, fr)
+		adder.buf = make([]fields, 1)
 		adder.flushed = 0
 		return adder, nil
 	}
@@ -43,9 +43,9 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	}
 	adder.flushed = uint32(fi.Size() / rcdSize)
 	if adder.flushed == 0 {
-		adder.buf = make([]fields, 1, fr)
+		adder.buf = make([]fields, 1)
 	} else {
-		adder.buf = make([]fields, 0, fr)
+		adder.buf = make([]fields, 0)
 	}
 	return adder, nil
 }
-- 
2.43.0


From ed55d6ee8a5b409ad96f519755b6f1061e9d6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 23/28] fix: dmd: refuse to append to a truncated table

---
 dmd/adder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmd/adder.go b/dmd/adder.go
index dccb83a..6767a01 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -16,6 +16,7 @@ package dmd
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"os"
 	"path/filepath"
@@ -41,6 +42,9 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	if err != nil {
 		return nil, err
 	}
+	if fi.Size()%rcdSize != 0 {
+		return nil, fmt.Errorf("%s: truncated record", path)
+	}
 	adder.flushed = uint32(fi.Size() / rcdSize)
 	if adder.flushed == 0 {
 		adder.buf = make([]fields, 1)
-- 
2.43.0


From c233f18222f20b4db60da3ee40b89a0cb0c16d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 24/28] fix: report failures to close the files of an index

---
 config.go                 |  8 ++++++--
 dmd/adder.go              |  8 ++++++--
 indexer.go                |  8 ++++++--
 internal/shard/indexer.go | 25 ++++++++++++++++++-------
 4 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/config.go b/config.go
index 7dc3056..b564084 100644
--- a/config.go
+++ b/config.go
@@ -161,12 +161,16 @@ func ReadConfig(path string) (*Config, error) {
 	return &cfg, nil
 }
 
-func (cfg *Config) Write() error {
+func (cfg *Config) Write() (err error) {
 	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	d, err := json.MarshalIndent(cfg, "", "\t")
 	if err != nil {
 		return err
diff --git a/dmd/adder.go b/dmd/adder.go
index 6767a01..c7c88df 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -78,12 +78,16 @@ func (t *Adder) Close() error {
 	return t.flush()
 }
 
-func (t *Adder) flush() error {
+func (t *Adder) flush() (err error) {
 	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	_, err = f.Seek(0, io.SeekEnd)
 	if err != nil {
 		return err
diff --git a/indexer.go b/indexer.go
index 8a5c525..3efcd82 100644
--- a/indexer.go
+++ b/indexer.go
@@ -171,13 +171,17 @@ func openFromConfig(cfg *Config) (idx *Indexer, err error) {
 }
 
 // write the files that apeared in added documents.
-func (x *Indexer) writeFiles() error {
+func (x *Indexer) writeFiles() (err error) {
 	docPath := x.config.FnamesPath()
 	f, e := os.OpenFile(docPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if e != nil {
 		return e
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	return x.fnames.write(f)
 }
 
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 86d6bc0..768435a 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -40,7 +40,7 @@ func (x *Indexer) initCommon(id uint32, root string, flushRate uint32) {
 	x.postChn = make(chan []post.T)
 }
 
-func (x *Indexer) InitCreate(id uint32, root string, flushRate uint32) error {
+func (x *Indexer) InitCreate(id uint32, root string, flushRate uint32) (err error) {
 	x.initCommon(id, root, flushRate)
 	// maybe this is unnecessary, just write on close...
 	iixName := fmt.Sprintf("%s.iix", x.root)
@@ -48,7 +48,11 @@ func (x *Indexer) InitCreate(id uint32, root string, flushRate uint32) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	for i := range x.ind {
 		z := &x.ind[i]
 		if err := z.initCreate(f, uint16(i)); err != nil {
@@ -121,13 +125,17 @@ func (x *Indexer) Close() error {
 	return x.err
 }
 
-func (x *Indexer) flushIix() error {
+func (x *Indexer) flushIix() (err error) {
 	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
 		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-	defer iix.Close()
+	defer func() {
+		if cerr := iix.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	for i := range x.ind {
 		up := &x.ind[i]
 		_, err = up.writeVarint64(iix, up.head)
@@ -148,9 +156,12 @@ func (x *Indexer) flushIix() error {
 	return nil
 }
 
-func (x *Indexer) flushInd() error {
-	var err error
-	defer x.postFile.Close()
+func (x *Indexer) flushInd() (err error) {
+	defer func() {
+		if cerr := x.postFile.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	for i := range x.ind {
 		up := &x.ind[i]
 		err = up.flushTo(x.postFile)
-- 
2.43.0


From e20667adf1d1eda95f05e07e741fdc8539321290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 25/28] fix: attic: add a post again after an intersection
 removed it

---
 attic/bposts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/bposts.go b/attic/bposts.go
index f7cd69a..fee4cc5 100644
--- a/attic/bposts.go
+++ b/attic/bposts.go
@@ -83,7 +83,7 @@ func (t *bposts) Ones(dst []int) []int {
 }
 
 func (t *bposts) AddPost(post uint32) error {
-	if t.Post == post && t.Total != 0 {
+	if t.Post == post && t.Total != 0 && t.HasPost(post) {
 		return nil
 	}
 	t.Post = post
-- 
2.43.0


From 8dac109b386c4f464a6d9275f6285c109c94981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 26/28] fix: dupi blot: report failure for files that cannot be
 read

---
 cmd/dupi/blot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 21734a2..4599580 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -49,12 +49,14 @@ func (b *blotCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
+	var reterr error
 	for _, fname := range b.flags.Args() {
 		if err = b.doFilename(fname, idx); err != nil {
 			log.Printf("error processing %s: %s", fname, err)
+			reterr = err
 		}
 	}
-	return nil
+	return reterr
 }
 
 func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
-- 
2.43.0


From b05e001eb0c7f364941419c2ec56d418dd8c86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 27/28] fix: dupi: the verb is what follows the global options

---
 cmd/dupi/dupi.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 97f6311..c0cb318 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -56,20 +56,6 @@ func getIndexRoot() string {
 	return filepath.Join(home, ".dupi")
 }
 
-// returns global argument list
-func splitArgs(args []string) ([]string, []string) {
-	var i int
-	var arg string
-	var sc Verb
-	for i, arg = range args {
-		sc = scMap[arg]
-		if sc != nil {
-			break
-		}
-	}
-	return args[:i], args[i:]
-}
-
 func usage(w io.Writer) {
 	fmt.Fprintf(w, "usage: dupi [global opts] <verb> <args>\n")
 	fmt.Fprintf(w, "verbs are:\n")
@@ -96,7 +82,9 @@ func main() {
 	}); err != nil {
 		log.Fatal(err)
 	}
-	gargs, largs := splitArgs(os.Args[1:])
+	gFlags.Usage = func() { usageFatal(os.Stderr) }
+	gFlags.Parse(os.Args[1:])
+	largs := gFlags.Args()
 	if len(largs) == 0 {
 		usageFatal(os.Stderr)
 	}
@@ -104,8 +92,6 @@ func main() {
 	if sc == nil {
 		usageFatal(os.Stderr)
 	}
-	gFlags.Usage = func() { usageFatal(os.Stderr) }
-	gFlags.Parse(gargs)
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From e3c747e8661895bf8c81c5a96ca7590171b1d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 28/28] fix: concurrent lookups of documents moved a shared
 file offset

---
 dmd/t.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index e5ed355..9b8b796 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -52,13 +51,9 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
+	// ReadAt, as lookups may be concurrent.
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0

