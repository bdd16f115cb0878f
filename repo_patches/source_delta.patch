From 9a5be88a3e8040357ee127e26b6472f3ab25642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 01/29] fix: do not treat a zero path distance as an unvisited
 position

---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..c2dbc5c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From eb48e4f9981f5032f8c5c0c2b6f629475b340bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 02/29] fix: return the segment of a single word text in search
 mode

---
 segmenter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segmenter.go b/segmenter.go
index c2dbc5c..cade693 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -98,7 +98,8 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	// a single word can not be divided any further, it is its own segment
+	return seg.segmentWords(text, searchMode && len(text) > 1)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From 99fb5b40f99800291fb981896159991655000534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 03/29] fix: skip dictionary entries whose frequency is not a
 finite number

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..68d5067 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -275,9 +275,9 @@ func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
 	// Analyze the word frequency
 	var err error
 	freq, err = strconv.ParseFloat(freqText, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(freq) || math.IsInf(freq, 0) {
 		// continue
-		return
+		return 0.0
 	}
 
 	// Filter out the words that are too infrequent
-- 
2.43.0


From 829a7f3a45ee6bc4b49a3b61ec8e85c79251d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 04/29] fix: do not carry the fields of a dictionary line over
 to the next one

---
 dict_util.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 68d5067..8dd0c88 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -316,10 +316,8 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	var (
-		file           string
-		text, freqText string
-		freq           float64
-		pos            string
+		file string
+		freq float64
 	)
 
 	if len(files) > 0 {
@@ -331,8 +329,9 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	for {
 		line++
 		var (
-			size  int
-			fsErr error
+			size                int
+			text, freqText, pos string
+			fsErr               error
 		)
 		if seg.DictSep == "" {
 			size, fsErr = fmt.Fscanln(reader, &text, &freqText, &pos)
-- 
2.43.0


From 5701adefa7a913142647669b6ca54cd44a24d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 05/29] fix: return the read error instead of reading a broken
 dictionary forever

---
 dict_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index 8dd0c88..b477425 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -340,6 +340,11 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		}
 
 		if fsErr != nil {
+			// a broken reader would fail in the same way forever
+			if _, err := reader.Peek(1); err != nil && err != io.EOF {
+				return err
+			}
+
 			if fsErr == io.EOF {
 				// End of file
 				if seg.DictSep == "" {
-- 
2.43.0


From 088d7db3be65e10b201f2a7062dc86261cc7e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 06/29] fix: trim the text of a dictionary line read with a
 separator

---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index b477425..8330d6f 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -302,7 +302,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	text = strings.TrimSpace(parts[0])
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
-- 
2.43.0


From 577e5489d7bdf28dd251b4c9a9a297f666045bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 07/29] fix: do not repeat the previous dictionary path for
 names without a file

---
 dict_util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 8330d6f..cff9aab 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -388,8 +388,6 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 // DictPaths get the dict's paths
 func DictPaths(dictDir, filePath string) (files []string) {
-	var dictPath string
-
 	if filePath == "en" {
 		return
 	}
@@ -402,6 +400,7 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		var dictPath string
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0


From d95939936bf5e1702c8d058f45b871e43db1e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 08/29] fix: load into an emptied segmenter and keep the
 dictionary already loaded

---
 dict_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index cff9aab..04f9aa7 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -106,6 +106,7 @@ func (seg *Segmenter) RemoveToken(text string) error {
 // Empty empty the seg dictionary
 func (seg *Segmenter) Empty() error {
 	seg.Dict = nil
+	seg.Load = false
 	return nil
 }
 
@@ -148,11 +149,11 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // When a participle appears both in the user dictionary and
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
-	if !seg.Load {
+	if seg.Dict == nil {
 		seg.Dict = NewDict()
-		seg.Load = true
 		seg.Init()
 	}
+	seg.Load = true
 
 	var (
 		dictDir  = path.Join(path.Dir(seg.GetCurrentFilePath()), "data")
-- 
2.43.0


From 08f0f5913e00167bb3199808e29721b213b19cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 09/29] fix: AddStop on a segmenter without stop words

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 9917ec79edbb8f2fc1a1f6d93c680ae67025d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 10/29] fix: report the read errors of stop word files

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 43e4811..4028441 100644
--- a/stop.go
+++ b/stop.go
@@ -74,6 +74,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 				seg.StopWordMap[text] = true
 			}
 		}
+
+		if err := scanner.Err(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 04123a44aafd7ee9f17c1a8f1881a31b3ec8fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 11/29] fix: FindAllOccs never returned for an empty search

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index dd15cb9..15b2c6b 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From adb3aa59c416749d02ed2786565cc38d4d49e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 12/29] fix: Analyze of words that repeat more often than in
 the text

---
 dag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dag.go b/dag.go
index 15b2c6b..34a5ce8 100644
--- a/dag.go
+++ b/dag.go
@@ -106,7 +106,7 @@ func (seg *Segmenter) Analyze(text []string, t1 string, by ...bool) (az []Analyz
 				isEx[v] = 0
 			}
 
-			if len(all[v]) > 0 {
+			if isEx[v] < len(all[v]) {
 				start = all[v][isEx[v]]
 			}
 			end = start + len([]byte(v))
-- 
2.43.0


From 57ecd89ea78a0901bb3b54d6c658271ead0a6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 13/29] fix: cut with a regexp that matches the empty string
 always returns

---
 hmm/hmm_seg.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..13c002a 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -85,9 +85,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	for {
 		// find(text, cuts, cutLoc, nonCutLoc)
 		if len(reg) > 1 {
-			cutLoc = reg[1].FindStringIndex(text)
+			cutLoc = findLoc(reg[1], text)
 		} else {
-			cutLoc = regHan.FindStringIndex(text)
+			cutLoc = findLoc(regHan, text)
 		}
 
 		if cutLoc == nil {
@@ -102,9 +102,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		}
 
 		if len(reg) > 0 {
-			nonCutLoc = reg[0].FindStringIndex(text)
+			nonCutLoc = findLoc(reg[0], text)
 		} else {
-			nonCutLoc = regSkip.FindStringIndex(text)
+			nonCutLoc = findLoc(regSkip, text)
 		}
 		if nonCutLoc == nil {
 			if len(text) == 0 {
@@ -132,6 +132,17 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	return result
 }
 
+// findLoc returns the leftmost match, an empty match is no match:
+// it can not be cut out of the text
+func findLoc(re *regexp.Regexp, text string) []int {
+	loc := re.FindStringIndex(text)
+	if loc != nil && loc[0] == loc[1] {
+		return nil
+	}
+
+	return loc
+}
+
 func locJudge(str string, cutLoc, nonCutLoc []int) (loc []int) {
 	if cutLoc == nil && nonCutLoc == nil {
 		if len(str) > 0 {
-- 
2.43.0


From 0a9c14b7fc40757aed1ffd714510459a84592aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 14/29] fix: Viterbi of an empty observation

---
 hmm/viterbi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..2789711 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,10 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	if len(obs) == 0 {
+		return 0, nil
+	}
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From 210f033c89681659a0b0b44760e247362c32d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 15/29] fix: the first rank seen can be the greatest one too

---
 hmm/idf/textrank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..46f5de9 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
-- 
2.43.0


From abe5e5ee61a93eb26f49c7023ab9f747a6347cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 16/29] fix: the weights of TextRank depend on the order of a
 map

---
 hmm/idf/textrank.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 46f5de9..6435a85 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -147,6 +147,7 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 
 	g := newUndirectWeightedGraph()
 	cm := make(map[[2]string]float64)
+	var order [][2]string
 	span := 5
 
 	var pairs []gse.SegPos
@@ -161,6 +162,7 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 				}
 
 				if _, ok := cm[[2]string{pairs[i].Text, pairs[j].Text}]; !ok {
+					order = append(order, [2]string{pairs[i].Text, pairs[j].Text})
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] = 1.0
 				} else {
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] += 1.0
@@ -169,8 +171,10 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	// add the edges in the order of the text, the rank of a word
+	// sums up its edges and must not depend on the order of a map
+	for _, startEnd := range order {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From c1d1abb934f8c7c1ed42f9d672119f1bb1b74e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 17/29] fix: the stop words of one StopWord are shared by all
 of them

---
 hmm/idf/stop_words.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index 202dd90..1c662e2 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -48,6 +48,10 @@ type StopWord struct {
 
 // AddStop add a token to StopWord dictionary.
 func (s *StopWord) AddStop(text string) {
+	if s.stopWordMap == nil {
+		s.stopWordMap = make(map[string]bool)
+	}
+
 	s.stopWordMap[text] = true
 }
 
@@ -59,7 +63,10 @@ func (s *StopWord) RemoveStop(text string) {
 // NewStopWord create a new StopWord with the default stop words.
 func NewStopWord() *StopWord {
 	s := new(StopWord)
-	s.stopWordMap = StopWordMap
+	s.stopWordMap = make(map[string]bool, len(StopWordMap))
+	for k, v := range StopWordMap {
+		s.stopWordMap[k] = v
+	}
 	return s
 }
 
@@ -76,8 +83,8 @@ func (s *StopWord) LoadDict(files ...string) error {
 		return err
 	}
 
-	for k, v := range s.seg.StopWordMap {
-		StopWordMap[k] = v
+	for k := range s.seg.StopWordMap {
+		s.AddStop(k)
 	}
 
 	return nil
-- 
2.43.0


From bbf68cf875a559e9e3ee2b40e376783a470b4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 18/29] fix: the first word of the dictionary has a pos too

---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From a475cf41058a0b6bc011249c8a2a689ca8c13e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 19/29] fix: TrimWithPos without a pos drops nothing

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..e99ef31 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..ac905fe 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From cd7dad9c67e9a53455ef44c99adf65a728514442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 20/29] fix: TrimPosPunct must not change the segments it is
 given

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index ac905fe..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From eaa026d621b2c38cf260a997e64614acf97b511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 21/29] fix: ExtractTags with a negative topK

---
 hmm/idf/tag_extracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..70ada19 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -89,6 +89,10 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 
 	sort.Sort(sort.Reverse(ws))
 
+	if topK < 0 {
+		topK = 0
+	}
+
 	if len(ws) > topK {
 		tags = ws[:topK]
 		return
-- 
2.43.0


From 871852e7d88a06d9e6d346dacb010eeb09de7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 22/29] fix: guard the segmenter of the server against
 concurrent requests

---
 tools/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..012c77e 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu guards seg, the requests are served concurrently
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -82,6 +85,8 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 		text = req.PostFormValue("text")
 	}
 
+	segMu.RLock()
+	defer segMu.RUnlock()
 	if *hmm {
 		segs := seg.Cut(text, true)
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
@@ -111,6 +116,8 @@ func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
+	segMu.Lock()
+	defer segMu.Unlock()
 	seg.AddTokenForce(text, freq, pos)
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
-- 
2.43.0


From ec9959ab43068b3877ee0515b081ad7c47267b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 23/29] fix: declare ZhIdf in the build without embedded
 dictionaries too

---
 dict_no_embed.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dict_no_embed.go b/dict_no_embed.go
index bacf0c0..c00113d 100644
--- a/dict_no_embed.go
+++ b/dict_no_embed.go
@@ -6,4 +6,6 @@ package gse
 var (
 	ja, zhT, zhS string
 	stopDict     string
+
+	ZhIdf string
 )
-- 
2.43.0


From 7025dc92e4a3b11008852a229977d530f8f2a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 24/29] fix: do not panic on a segmenter without a dictionary

---
 dag.go        |  4 ++--
 dict_util.go  |  9 +++++++++
 dictionary.go | 24 ++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 34a5ce8..6de7bb2 100644
--- a/dag.go
+++ b/dag.go
@@ -177,7 +177,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	rs[n] = route{freq: 0.0, index: 0}
 	var r route
 
-	logT := math.Log(seg.Dict.totalFreq)
+	logT := math.Log(seg.Dict.TotalFreq())
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
@@ -381,7 +381,7 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
-	total := seg.Dict.totalFreq
+	total := seg.Dict.TotalFreq()
 
 	if len(words) > 1 {
 		for _, word := range words {
diff --git a/dict_util.go b/dict_util.go
index 04f9aa7..866e102 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -73,6 +73,11 @@ func (seg *Segmenter) ToToken(text string, freq float64, pos ...string) Token {
 
 // AddToken add a new text to the token
 func (seg *Segmenter) AddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Init()
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	return seg.Dict.AddToken(token)
 }
@@ -456,6 +461,10 @@ func IsJp(segText string) bool {
 
 // CalcToken calc the segmenter token
 func (seg *Segmenter) CalcToken() {
+	if seg.Dict == nil {
+		return
+	}
+
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
 	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
diff --git a/dictionary.go b/dictionary.go
index 31a85bb..3b6000d 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -34,16 +34,28 @@ func NewDict() *Dictionary {
 
 // MaxTokenLen the maximum length of the dictionary
 func (dict *Dictionary) MaxTokenLen() int {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.maxTokenLen
 }
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
+	if dict == nil {
+		return 0
+	}
+
 	return len(dict.Tokens)
 }
 
 // TotalFreq the total frequency of the dictionary
 func (dict *Dictionary) TotalFreq() float64 {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.totalFreq
 }
 
@@ -72,6 +84,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
+	if dict == nil {
+		return cedar.ErrNoKey
+	}
+
 	bytes := textSliceToBytes(token.text)
 
 	return dict.trie.Delete(bytes)
@@ -105,6 +121,10 @@ func (dict *Dictionary) LookupTokens(
 // Find find the word in the dictionary is non-existent
 // and the word's frequency and pos
 func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
+	if dict == nil {
+		return 0, "", false
+	}
+
 	var (
 		id, value int
 		freq      float64
@@ -133,6 +153,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if dict == nil {
+		return 0, 0, cedar.ErrNoKey
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
-- 
2.43.0


From 3820fea2fcf90f0e01f0d72ba53053d7b8d0f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 25/29] fix: SuggestFreq without words

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 6de7bb2..e00cafa 100644
--- a/dag.go
+++ b/dag.go
@@ -407,6 +407,10 @@ func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 		return freq
 	}
 
+	if len(words) == 0 {
+		return 0
+	}
+
 	word := words[0]
 	for _, segment := range seg.Cut(word, false) {
 		v, _, ok := seg.Find(segment)
-- 
2.43.0


From 7671178cfcfd028c7d034808ee5800c479b5eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 26/29] fix: do not add an empty word to the dictionary

---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 3b6000d..c6e7ada 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -62,6 +62,11 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		// an empty word matches no text
+		return nil
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
-- 
2.43.0


From c96bbbc74dfb233a922a7f44dbdabbee752fbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 27/29] fix: do not append to the file lists of the caller

---
 dict_util.go | 6 ++++--
 stop.go      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 866e102..4eef090 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -239,9 +239,11 @@ func (seg *Segmenter) GetIdfPath(files ...string) []string {
 		dictPath = path.Join(dictDir, "dict/zh/idf.txt")
 	)
 
-	files = append(files, dictPath)
+	// do not append to the slice of the caller
+	paths := make([]string, 0, len(files)+1)
+	paths = append(paths, files...)
 
-	return files
+	return append(paths, dictPath)
 }
 
 // Read read the dict file
diff --git a/stop.go b/stop.go
index 4028441..8279056 100644
--- a/stop.go
+++ b/stop.go
@@ -47,7 +47,7 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 	dictDir := path.Join(path.Dir(seg.GetCurrentFilePath()), "data")
 	if len(files) <= 0 {
 		dictPath := path.Join(dictDir, "dict/zh/stop_word.txt")
-		files = append(files, dictPath)
+		files = []string{dictPath}
 	}
 
 	name := strings.Split(files[0], ", ")
-- 
2.43.0


From b71c23c8004e8f116b055c28f65110d177bd440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 28/29] fix: read a dictionary into a segmenter without one

---
 dict_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index 4eef090..2ffe72f 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -323,6 +323,11 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Init()
+	}
+
 	var (
 		file string
 		freq float64
-- 
2.43.0


From 84260abcafac49f4715e9420082e53c9b8d59960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:44 +0000
Subject: [PATCH 29/29] fix: give a word that only begins entries of the IDF
 table the median

---
 hmm/idf/tag_extracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 70ada19..c29ce4e 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -79,7 +79,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0

