From 10d5b8103aa3e18075978103b11c7caf3f2721f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 01/32] fix: keep out-of-order samples sorted by time in the
 range storage

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From c91f208ebb9ac68fb4fba8d7340979eb398543a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 02/32] fix: make series emptied by Clean queryable again when
 they are reloaded

---
 promq/prom/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..b9d9a08 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,13 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	// forget the cleaned series entirely, so that they get a new ref (and postings)
+	// if we ever see them again
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From a96ac9a2237a99d83bfc0918a6873d5fafb037a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 03/32] fix: don't deadlock selecting with matchers that match
 the empty string

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index b9d9a08..2746f4a 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -207,7 +207,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From ee26d893ab5b14048024d6b607b1d0f6ee2d1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 04/32] fix: give each caller of a stored series its own
 forward-only iterator

---
 promq/prom/query.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 2746f4a..2ebc5cb 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -288,18 +288,25 @@ type blockSeries struct {
 }
 
 func (s *blockSeries) Iterator() chunkenc.Iterator {
-	return s
+	return &blockSeries{block: s.block, ind: -1}
 }
 func (s *blockSeries) Labels() labels.Labels {
 	return s.block.series
 }
 func (s *blockSeries) Next() bool {
-	s.ind++
+	if s.ind < len(s.block.data) {
+		s.ind++
+	}
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	// seeking never moves the iterator backwards
+	if s.ind < 0 {
+		s.ind = 0
+	}
+	rest := s.block.data[s.ind:]
+	s.ind += sort.Search(len(rest), func(ind int) bool {
+		return rest[ind].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From c696920491813b5c4d574ef4761a18e2c8abbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 05/32] fix: don't hand out the index's live label value sets

---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..91743eb 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// callers keep using the set after we release the lock, so hand out a copy
+	return values.Union(nil)
 }
-- 
2.43.0


From 91005c343b428b8231647c07e6ae5efe842f9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 06/32] fix: use one point in time for both ends of a range
 query

---
 promq/prom/multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..c5dacea 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -112,7 +112,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 	} else {
 		var err error
 		end := time.Now()
-		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
+		start := end.Add(time.Duration(-1) * q.Times.Window)
 		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
-- 
2.43.0


From 72139a483deb2f9fe9146e0f7b73a8cb5ea8fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 07/32] fix: read the current query under its lock when
 executing it

---
 promq/prom/multi.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index c5dacea..6a044e3 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -102,10 +102,15 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	// the query may be changed by another goroutine while we're scraping
+	q.queryMu.RLock()
+	queryString := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryString, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +118,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := end.Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryString, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From c0fbbed70487e6e4807a7cf9c42713865800d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 08/32] fix: don't index runes by byte offsets when looking for
 the completion prefix

---
 promq/autocomplete/earley/completer.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From 4be6f703298cf41a58ecd24e032fb01bcb0f7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 09/32] fix: don't panic completing text that starts with
 something that doesn't lex

---
 promq/autocomplete/earley/earley.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..82cd0b6 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -184,12 +184,13 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 }
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
-	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	// text that doesn't lex has no tokens, not even an end: there's nothing to continue
+	if len(tokens) == 0 {
+		return nil
 	}
+	lastTokenPos := len(tokens) - 1
 
-	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
+	if p.words == nil || len(p.words) == 0 || !p.words[0].equals(tokens[0]) {
 		p.ParseTokens(tokens)
 	} else {
 		result := p.words.Compare(tokens)
@@ -210,6 +211,6 @@ func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken)
 	}
 	suggestions := p.chart.GetValidTerminalTypesAtStateSet(lastTokenPos)
 	debug.Debugln(
-		"generating suggestions", tokens.Vals()[lastTokenPos], len(tokens), lastTokenPos, len(suggestions))
+		"generating suggestions", tokens.Vals(), len(tokens), lastTokenPos, len(suggestions))
 	return suggestions
 }
-- 
2.43.0


From 488f8e15a897b70b8dee803c659321da4014c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 10/32] fix: forget the previous words when parsing from
 scratch

---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82cd0b6..11dec2e 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From 900e7750e13a8e3eb1071000e9ad0c731ca53809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 11/32] fix: continue parsing when new tokens extend the
 previous ones

---
 promq/autocomplete/earley/luthor.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..949f386 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,16 +63,15 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
 			return i
 		}
 	}
-	// return negative i if tks2 covers ws
+	// return the negative length of ws if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From 9204389359f47ca105842135b8ac47f70e8bde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 12/32] fix: don't take the @ modifier for a binary operator
 when completing

---
 promq/autocomplete/earley/luthor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 949f386..fa963bf 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -278,7 +278,8 @@ func isAggregator(item parser.ItemType) bool {
 }
 
 func isOperator(item parser.ItemType) bool {
-	return item == parser.EQL || (item > 57367 && item < 57387)
+	// the @ modifier is in the range of operators, but doesn't combine two expressions
+	return item == parser.EQL || (item > 57367 && item < 57387 && item != parser.AT)
 }
 
 func isScalarFunction(item parser.Item) bool {
-- 
2.43.0


From eb0fb714ad71a001cc35d0bc30a426c7464f444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 13/32] fix: keep the case of what a case-insensitive filter
 lets through

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..eae2974 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		candidate := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			candidate = strings.ToLower(candidate)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(candidate, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From aa9b396a296dc5d62d0adf917152023ed20652cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 14/32] fix: complete at the byte offset of the cursor, not at
 its display column

---
 cmd/metrics/autocompleter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..0b7775a 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -37,10 +37,12 @@ func NewCompleter(completor autocomplete.PromQLCompleter) *Completer {
 }
 
 func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
-	if d.TextBeforeCursor() == "" {
+	textBeforeCursor := d.TextBeforeCursor()
+	if textBeforeCursor == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	// the position is a byte offset into the query, not a column on the screen
+	ret := c.promCompleter.GenerateSuggestions(textBeforeCursor, len(textBeforeCursor))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0


From 887373da7e5bc0dcd65c220942b10f4bc0360d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 15/32] fix: treat atan2 as the arithmetic operator it is when
 completing

---
 promq/autocomplete/earley/luthor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index fa963bf..5432a4c 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -254,7 +254,7 @@ func mapParserItemTypeToTokhanType(item parser.Item) TokenType {
 		return RIGHT_BRACKET
 	case t == parser.DURATION:
 		return DURATION
-	case t == parser.ADD, t == parser.SUB, t == parser.MUL, t == parser.DIV, t == parser.MOD, t == parser.POW:
+	case t == parser.ADD, t == parser.SUB, t == parser.MUL, t == parser.DIV, t == parser.MOD, t == parser.POW, t == parser.ATAN2:
 		return ARITHMETIC
 	case t == parser.LAND, t == parser.LOR, t == parser.LUNLESS:
 		return SET
-- 
2.43.0


From 7f2413ecd9f83f2040741ca7ff9fbecf25b293e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 16/32] fix: don't panic plotting a series without points

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From 2dc8bb023aa8c0cb5ada389eae666935478f23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 17/32] fix: leave NaN and infinite samples out of the plot
 instead of panicking

---
 promq/term/plot/plot.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..2ac9993 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -82,6 +82,12 @@ type PlatonicGraph struct {
 	Series SeriesSet
 }
 
+// isPlottable says whether a value has a place on the range axis at all
+// (queries like 0/0 or 1/0 give NaN and Inf).
+func isPlottable(y float64) bool {
+	return !math.IsNaN(y) && !math.IsInf(y, 0)
+}
+
 func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGraph {
 	res := &PlatonicGraph{
 		Series: seriesSet,
@@ -103,6 +109,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isPlottable(val) {
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -162,6 +171,9 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isPlottable(inY) {
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
-- 
2.43.0


From 69405ed02df665727884c527236018927849e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 18/32] fix: project points by the scaled distance from the
 scaled minimum

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 2ac9993..e40999d 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -146,7 +146,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(math.Round((scale(y)-scale(g.RangeMin))*rangeScaleFactor))
 	}
 
 	return domain, rng
-- 
2.43.0


From 6c4fc189950a054b7ba60e84a30bc00267de24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 19/32] fix: don't add range ticks forever when the increment
 makes no progress

---
 promq/term/plot/axes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..531af0e 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -122,6 +122,11 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 		}
 		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
 			platRngTicks = append(platRngTicks, x)
+			// flat negative data gives a negative increment, and big values can
+			// swallow a small one, so make sure that we get anywhere
+			if x+platRngInc <= x {
+				break
+			}
 		}
 		// always put a tick @ max
 		if len(platRngTicks) > 0 && platRngTicks[len(platRngTicks)-1] != graph.RangeMax {
-- 
2.43.0


From fb36553e0860c13859a9134ddeafc429b94afe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 20/32] fix: don't put domain ticks past the end of the domain

---
 promq/term/plot/axes.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 531af0e..f905698 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,11 +92,14 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			platDomInc = graph.DomainMax - graph.DomainMin // just two ticks
 		}
-		platDomTicks = make([]int64, numTicks)
-		for i := range platDomTicks {
-			platDomTicks[i] = graph.DomainMin+(platDomInc*int64(i))
+		for i := int64(0); i < numTicks; i++ {
+			tick := graph.DomainMin+(platDomInc*i)
+			if tick > graph.DomainMax {
+				break
+			}
+			platDomTicks = append(platDomTicks, tick)
 		}
 		// always put a tick @ max
 		if len(platDomTicks) > 0 && platDomTicks[len(platDomTicks)-1] != graph.DomainMax {
-- 
2.43.0


From f3a8d8fabab5511335a8a2d4bb9215e228b5e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 21/32] fix: keep the projection of huge and tiny value ranges
 finite

---
 promq/term/plot/plot.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index e40999d..ae22e5f 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -131,7 +131,12 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// avoid issues with flat lines
 	domainDiff := g.DomainMax - g.DomainMin
-	rangeDiff := scale(g.RangeMax) - scale(g.RangeMin)
+	scaledMin, scaledMax := scale(g.RangeMin), scale(g.RangeMax)
+	shrink := 1.0
+	if math.IsInf(scaledMax-scaledMin, 0) {
+		shrink = 0.5 // keep the difference of huge values finite
+	}
+	rangeDiff := scaledMax*shrink - scaledMin*shrink
 	if domainDiff == 0 {
 		domainDiff = 1
 	}
@@ -139,14 +144,14 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		rangeDiff = 1
 	}
 	domainScaleFactor := float64(size.Cols-1)/float64(domainDiff)
-	rangeScaleFactor := float64(size.Rows-1)/float64(rangeDiff)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round((scale(y)-scale(g.RangeMin))*rangeScaleFactor))
+		// divide first: the inverse of a tiny difference is not finite
+		return Row(math.Round((scale(y)*shrink-scaledMin*shrink)/rangeDiff*float64(size.Rows-1)))
 	}
 
 	return domain, rng
-- 
2.43.0


From fa0abb39ab61ee6c21127483db3f283680ae6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 22/32] fix: scroll the lines down when moving up past the top

---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From d11c1245cc4f09215bd21f279bcc59bf578b062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 23/32] fix: don't write characters wider than the whole text
 area

---
 promq/term/wrapper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..2bbe898 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -117,6 +117,10 @@ func (t *textWrapper) WriteString(str string, sty tcell.Style) {
 // If the runes would be too wide to contain the given content, this will wrap
 // to the next line.
 func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
+	if width > t.cols {
+		// there's no line that this would fit on, so there's no point in wrapping
+		return
+	}
 	if remaining := t.cols - t.cursorCol; remaining < width {
 		// wrap if needed
 		t.Newline()
-- 
2.43.0


From c018451d43eaf6c9f0e0645f76844c30ffaa4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 24/32] fix: keep the cursor in the text area when it shrinks
 or moves by negative amounts

---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 27 +++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2bbe898..2d75a9b 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,17 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+
+	// keep the cursor inside (or just past the end of a line, ready to wrap)
+	if t.cursorCol > cols {
+		t.cursorCol = cols
+	}
+	if t.cursorRow >= rows {
+		t.cursorRow = rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -246,6 +257,10 @@ func (t *textWrapper) EraseLine() {
 // CursorForward moves the cursor forward n columns, stopping at
 // the 0th column of the wrapper.
 func (t *textWrapper) CursorForward(n int) {
+	if n < 0 {
+		t.CursorBackward(-n)
+		return
+	}
 	t.cursorCol += n
 	if t.cursorCol >= t.cols {
 		t.cursorCol = t.cols-1
@@ -255,6 +270,10 @@ func (t *textWrapper) CursorForward(n int) {
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
+	if n < 0 {
+		t.CursorForward(-n)
+		return
+	}
 	t.cursorCol -= n
 	if t.cursorCol < 0 {
 		t.cursorCol = 0
@@ -274,6 +293,10 @@ func (t *textWrapper) CursorGoTo(row, col int) {
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
+	if n < 0 {
+		t.CursorUp(-n)
+		return
+	}
 	t.cursorRow += n
 	if t.cursorRow >= t.rows {
 		t.cursorRow = t.rows-1
@@ -281,6 +304,10 @@ func (t *textWrapper) CursorDown(n int) {
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
+	if n < 0 {
+		t.CursorDown(-n)
+		return
+	}
 	t.cursorRow -= n
 	if t.cursorRow < 0 {
 		t.cursorRow = 0
-- 
2.43.0


From f08147848499009b59fa6757dd7316dff186783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 25/32] fix: send function keys in sequences that are not read
 as other keys

---
 promq/term/keytobytes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/term/keytobytes.go b/promq/term/keytobytes.go
index bd9e5f0..f6b2c59 100644
--- a/promq/term/keytobytes.go
+++ b/promq/term/keytobytes.go
@@ -125,7 +125,9 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	// this is hillariously inefficient since go-prompt immediately reverses
 	// it, but it's what we're stuck with
 	for _, seq := range prompt.ASCIISequences {
-		if seq.Key == key {
+		// some sequences are listed for several keys (e.g. F17 & Home), and
+		// get reversed to the first of those, so skip them for the others
+		if seq.Key == key && prompt.GetKey(seq.ASCIICode) == key {
 			return seq.ASCIICode
 		}
 	}
-- 
2.43.0


From 30e7bc2f32c91190e64e33295706056778451a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 26/32] fix: do not block the event loop on keys nobody will
 read

---
 promq/term/prompt.go     | 10 ++++++++--
 promq/term/withprompt.go |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..b2af3f5 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -145,6 +145,8 @@ type screenParser struct {
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
 	evts chan *tcell.EventKey
+	// done is closed once nothing reads from evts any more
+	done <-chan struct{}
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -228,12 +230,16 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	select {
+	case p.evts <- evt:
+	case <-p.done:
+		// drop the key instead of blocking the event loop's shutdown
+	}
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..23cd578 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -88,6 +88,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 	v.reader = &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
+		done: ctx.Done(),
 	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
-- 
2.43.0


From b429d7a269a7598199ae505e3c7624bae2b67a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 27/32] fix: read the prompt's position under its lock when
 showing the cursor

---
 promq/term/prompt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index b2af3f5..7ff6f58 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,13 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	// the draw thread is free to move us while we're showing the cursor
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	col, row := w.startCol+cursorCol, w.startRow+cursorRow
+	w.textMu.Unlock()
+
+	w.screen.ShowCursor(col, row)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From d3530a325a5ca82578de85f02aa319cdb13ece95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 28/32] fix: an HTTP error response was taken for metrics (an
 empty one for no metrics at all)

---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..1d3a649 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From d15b126a3bfd38db98c5d2ba63cfa1fc1361afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 29/32] fix: a one-shot query kept scraping (and could print
 its answer again)

---
 cmd/metrics/metrics.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 1d3a649..e6c9901 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -182,11 +182,11 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
+		// asyncronously trigger scrape
+		go c.scrape(ctx, runner)
+
 		// it's valid, let's try drawing
 		if err := c.runInteractiveChart(ctx, runner, query); err != nil {
 			return err
-- 
2.43.0


From 8f5dc05a2cfad44160da199a8ef990b905415eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 30/32] fix: the screen could be drawn before the prompt was
 set up (nil dereference at the start)

---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index e6c9901..4941bf5 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -430,7 +430,11 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+	promptReady := make(chan struct{})
+	promptView.OnSetup = func() { close(promptReady) }
 	go promptView.Run(ctx, &qs, stopScreen)
+	// the prompt can't be displayed until it's been set up
+	<-promptReady
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
 		return err
-- 
2.43.0


From 09112ea7928985ce40ae07785c021cfd26872e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 31/32] fix: the result of a query just replaced could stretch
 the axes of the next query

---
 cmd/metrics/metrics.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 4941bf5..f9d5133 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -327,6 +327,7 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 
 	var axesMu sync.Mutex
 	lastAxes := plot.AutoAxes()
+	newQuery := false // no result since we changed query
 
 	promptView := &term.PromptView{
 		SetupPrompt: func(requiredOpts ...prompt.Option) *prompt.Prompt {
@@ -360,6 +361,7 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 			}
 			axesMu.Lock()
 			lastAxes = plot.AutoAxes()  // reset the axes when we change query
+			newQuery = true
 			axesMu.Unlock()
 
 			msg := fmt.Sprintf("Plotting %q...\n", input)
@@ -398,7 +400,13 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 		// write to our lc object with all the label and chart information.
 		axesMu.Lock()
 		platGraph := plot.DataToPlatonicGraph(seriesSet, plot.AutoAxes().WithPreviousRange(lastAxes))
-		lastAxes = platGraph.PlatonicAxes
+		if newQuery {
+			// the previous query may have been running while it was changed,
+			// so don't let the first result determine the following axes
+			newQuery = false
+		} else {
+			lastAxes = platGraph.PlatonicAxes
+		}
 		axesMu.Unlock()
 
 		// size key
-- 
2.43.0


From b9190791e435dc7920432e11f4f9e23b5f078f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 32/32] fix: label names and values were looked up by matching
 the names against the matchers

LabelValues and LabelNames compared the label's name with every matcher's value,
LabelNames had the index's internal empty name in it and was not sorted.
---
 promq/prom/query.go | 46 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 2ebc5cb..d08f0be 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -220,30 +220,38 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	// doesn't look like we need to error on missing label from the prom implementations
-	var res []string
-	q.storage.postings.IterValues(name, func(val string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
-			}
-		}
-		res = append(res, val)
-	})
-	return res, nil, nil
+	return q.collect(matchers, func(lbl labels.Label) (string, bool) {
+		return lbl.Value, lbl.Name == name
+	}), nil, nil
 }
 
 func (q *memQuerier) LabelNames(matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
-	var res []string
-	q.storage.postings.IterNames(func(name string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	return q.collect(matchers, func(lbl labels.Label) (string, bool) {
+		return lbl.Name, true
+	}), nil, nil
+}
+
+// collect returns, sorted and once each, what pick takes from the labels of the series
+// that the matchers select (or of every series, if there are no matchers).
+func (q *memQuerier) collect(matchers []*labels.Matcher, pick func(labels.Label) (string, bool)) []string {
+	var series storage.SeriesSet = q.newSeriesSet(q.storage.postings.All())
+	if len(matchers) > 0 {
+		series = q.Select(false, nil, matchers...)
+	}
+	found := make(map[string]struct{})
+	for series.Next() {
+		for _, lbl := range series.At().Labels() {
+			if val, ok := pick(lbl); ok {
+				found[val] = struct{}{}
 			}
 		}
-		res = append(res, name)
-	})
-	return res, nil, nil
-
+	}
+	res := make([]string, 0, len(found))
+	for val := range found {
+		res = append(res, val)
+	}
+	sort.Strings(res)
+	return res
 }
 
 func (q *memQuerier) Close() error {
-- 
2.43.0

