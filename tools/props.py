"""The properties, as data. tools/mkdocs.py writes properties.jsonl and MANIFEST.json from it."""
P = []

def p(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })

PROM = "promq/prom/"

p("C01", "Text exposition parsing is faithful and all-or-nothing",
  "Parsing a valid Prometheus text exposition yields exactly one series per sample line, in document order, with the written labels (escapes decoded), value, and its own millisecond timestamp or else the scrape time. "
  "Extra labels given by the caller are present on every series and override same-named ones; label sets come out sorted by name. "
  "A document with any malformed line gives an error and no series, and the input bytes are never modified.",
  ["inputs"], "for every exposition document, scrape time and set of extra labels",
  "The one parse test feeds two fixed documents; escapes, clashes, own timestamps and malformed lines range over all inputs.",
  [PROM + "parse.go"], [("token loop, label builder", PROM + "parse.go: ParseTextDataWithAdditionalLabels")],
  ["ParseTextData", "ParseTextDataWithAdditionalLabels", "PromTimestamp"])

p("C02", "The store keeps every sample of every series, in time order",
  "After any sequence of loads, reading a series from the store gives exactly the samples loaded for that label set, ordered by time, with samples of equal time in arrival order. "
  "This holds for samples arriving late or out of order within or across loads. "
  "Every iterator over a stored series starts at the beginning, is independent of other iterators, and never moves backwards when seeking.",
  ["histories", "inputs"], "for every history of loads and every order of samples in it",
  "The existing storage tests load series in ascending time order only and read them through one query.",
  [PROM + "query.go", PROM + "map.go"], [("insertion point search", PROM + "query.go: LoadData"), ("iterator", PROM + "query.go: blockSeries")],
  ["NewRangeStorage", "LoadData", "Querier", "Select"],
  [("rangeStorage.data", "samples per series reference", PROM + "query.go"), ("seriesHashmap", "label set to reference, with hash collisions chained", PROM + "map.go")])

p("C03", "Selecting by matchers returns exactly the matching series, once each",
  "For any stored series and any list of label matchers (equal, not equal, regexp, not regexp), selection returns exactly the series whose labels satisfy all of them, each once, where a label that is absent counts as the empty string. "
  "Selection always terminates, repeating it gives the same series, and a series loaded later or removed by retention is included or excluded accordingly.",
  ["inputs", "histories"], "for every store content and every list of matchers",
  "Tests use a handful of equality selectors; matchers that accept the empty string over partly labelled series are never exercised.",
  [PROM + "query.go", PROM + "postings.go"], [("posting list intersection and complement", PROM + "query.go: memQuerier.Select"), ("label index", PROM + "postings.go")],
  ["Querier.Select"])

p("C04", "PromQL over the store means what PromQL means",
  "Any PromQL query evaluated over the store, as an instant or a range query, gives the same result as the same query evaluated over a plain list of the same series and samples. "
  "If one evaluation reports an error so does the other.",
  ["inputs", "histories", "programs"], "for every load and retention history, query, evaluation time, range and step",
  "Tests evaluate a few fixed queries over a fixed load; offsets, subqueries, vector matching and empty-matching selectors are not covered.",
  [PROM + "query.go", PROM + "postings.go", PROM + "multi.go"], [("storage.Queryable implementation", PROM + "query.go")],
  ["NewRangeStorage as storage for promql.Engine", "DefaultEngineOptions"])

p("C05", "Retention keeps exactly the samples that are new enough",
  "Cleaning the store at a time removes every sample strictly older than it and no other, series with nothing left are no longer returned by any selection, and cleaning never fails, also on an empty or fully expired store. "
  "Series that were emptied become visible again, with only their new samples, as soon as samples for them are loaded.",
  ["histories"], "for every interleaving of loads and cleanings",
  "One test cleans once; emptied series, repeated cleanings and reloading after a cleaning are histories no test contains.",
  [PROM + "query.go", PROM + "postings.go", PROM + "map.go"], [("cut search, posting deletion", PROM + "query.go: Clean"), ("deletion from the label index", PROM + "postings.go: Delete")],
  ["Clean", "Querier.Select"])

p("C06", "The label index mirrors additions and deletions exactly",
  "After any sequence of additions and deletions of ids with label sets, looking up a label pair gives exactly the ids added with it and not deleted, ascending; the all-series entry gives every such id; and label names, values and the sorted key list contain exactly what some remaining id carries. "
  "A list handed out by an ordered index is not changed by later deletions or by additions of larger ids. "
  "An index filled without ordering gives the same answers once it has been ordered.",
  ["histories"], "for every history of additions, deletions and orderings, with ids in any order",
  "Only indirectly exercised, with ids in ascending order and without deletions that leave other ids under the same label.",
  [PROM + "postings.go"], [("insertion with order repair", PROM + "postings.go: addFor"), ("copying deletion", PROM + "postings.go: Delete"), ("parallel sort", PROM + "postings.go: EnsureOrder")],
  ["NewmemPostings", "NewUnorderedmemPostings", "Add", "Delete", "Get", "All", "EnsureOrder", "SortedKeys", "IterNames", "IterValues"])

p("C07", "Periodic scraping survives failures and always serves the current query",
  "Every successful scrape ingests its samples and delivers, exactly once, the result (or the evaluation's error) of the most recently accepted query over everything ingested so far, covering the full window up to the present. "
  "A failing source delivers nothing, ingests nothing and reports its error; a failing consumer's error is reported; an unparseable query is refused and the previous one stays in force. "
  "None of these failures loses data or affects later scrapes.",
  ["histories", "fault_sequences"], "for every history of scrapes, source and consumer failures and query changes, in instant and range mode",
  "The tests scrape a constant source once or twice and never make the source, consumer or query fail in between.",
  [PROM + "multi.go"], [("scrape, load, execute, deliver", PROM + "multi.go: Scrape, ManuallyExecuteQuery"), ("query validation", PROM + "multi.go: SetQuery")],
  ["NewPeriodicData", "Scrape", "SetQuery", "ManuallyExecuteQuery", "Callback"],
  [("PeriodicData.Query", "the query in force", PROM + "multi.go")])

p("C08", "Scraping, query changes and index reads may run concurrently",
  "While one thread scrapes, others may change the query and read the completion index, including walking the sets it returned earlier, without data races, crashes or deadlocks. "
  "Each delivery belongs to one query that was in force at some moment during its scrape, index reads show everything ingested by completed scrapes and nothing never ingested, and the final state equals the sequential one.",
  ["schedules"], "for every interleaving of scrapes, query changes and index reads",
  "No existing test uses two goroutines or the race detector.",
  [PROM + "multi.go", PROM + "indexer.go"], [("storage and query locks", PROM + "multi.go"), ("index lock, returned copies", PROM + "indexer.go")],
  ["Scrape", "SetQuery", "GetIndex"])

p("C09", "The completion index knows exactly the observed names, labels and values",
  "After observing any sequence of series, the index names exactly the metrics seen, for each metric exactly the label names seen on it (without the metric name itself), and for each of those exactly the values seen; unknown metrics and labels give nothing, and series without a metric name are ignored. "
  "The answer depends only on the set of series seen, and changing a returned set never changes the index.",
  ["inputs", "histories"], "for every sequence of observed series and of reads, including readers that modify what they got",
  "Tests load one fixed exposition and read it back once.",
  [PROM + "indexer.go"], [("nested maps with seen-hash filter", PROM + "indexer.go: UpdateMetric")],
  ["NewIndex", "UpdateMetric", "GetMetricNames", "GetStoredDimensionsForMetric", "GetStoredValuesForMetricAndDimension"])

AC = "promq/autocomplete/earley/"

p("C10", "Completion never fails, whatever text is on the line",
  "Asking for completions at any position of any text, valid query or not, in any script or encoding, never panics, never hangs, and answers with a list. "
  "The prefix the completer works on is always a suffix of the text before the cursor.",
  ["inputs", "histories"], "for every line of text, cursor position and session of earlier requests",
  "Tests complete a list of well-formed ASCII prefixes; users type half tokens, unfinished strings and other scripts, and edit in the middle.",
  [AC + "completer.go", AC + "promql.go", AC + "luthor.go", AC + "earley.go"],
  [("prefix extraction, lexing, parsing", AC + "completer.go"), ("tokenizer", AC + "luthor.go")],
  ["NewPromQLCompleter", "GenerateSuggestions"])

p("C11", "Suggestions depend on the text before the cursor, not on earlier requests",
  "The suggestions for a text are the same whatever was asked of the same completer before: typing on, deleting, editing in the middle or starting over. "
  "Text after the cursor makes no difference.",
  ["histories", "inputs"], "for every sequence of completion requests made of one completer",
  "The completer keeps parser state between requests; each test asks a fresh completer, or one request after another on the same growing text.",
  [AC + "earley.go", AC + "promql.go"],
  [("incremental parsing of the extended token list", AC + "earley.go: PartialParse"), ("token comparison", AC + "luthor.go")],
  ["GenerateSuggestions"], [("Earley chart", "the words and item sets of the last parse", AC + "earley.go")])

p("C12", "Whatever comes next in a valid query is offered while it is typed",
  "While any query of the completer's language is typed, the word that comes next (metric, label name, label value, function, aggregation, keyword, unit) is among the suggestions at the point where it can start, and stays there while its first characters are typed. "
  "Metric names, label names of the metric at hand and values of the label at hand come from the index.",
  ["inputs", "programs"], "for every query of the language, index content, and point of typing",
  "Golden lists cover a few dozen prefixes; nested expressions, aggregations over functions over selectors are combinations no list holds.",
  [AC + "promql.go", AC + "completion_context.go", AC + "earley.go"],
  [("grammar of PromQL", AC + "promql.go"), ("token types to suggestions", AC + "completion_context.go")],
  ["GenerateSuggestions"])

p("C13", "What is offered can be written there",
  "After inserting any offered suggestion at the cursor, the text can still be continued to a query the Prometheus parser accepts (as far as syntax goes). "
  "Offered metric names, label names and label values are ones the index has, for the metric and label being written.",
  ["inputs", "programs"], "for every text a query can start with, index content and suggestion",
  "Golden lists compare texts; that a suggestion leads to a query is a relation to the real PromQL parser that no test makes.",
  [AC + "promql.go", AC + "completion_context.go"],
  [("grammar of PromQL", AC + "promql.go"), ("context of the selector being written", AC + "completion_context.go")],
  ["GenerateSuggestions"])

p("C14", "The Earley parser suggests exactly the terminals that can come next",
  "For any context-free grammar without empty rules and any list of words, the parser's suggestions are exactly the terminals that follow those words in some sentence of the grammar, and nothing when no sentence starts with them. "
  "Extending, shortening or replacing the words parsed before gives what parsing from scratch gives.",
  ["inputs", "histories", "programs"], "for every grammar, list of words and session of parses",
  "Tests parse with the one PromQL grammar and a toy arithmetic grammar; recursion and ambiguity of other shapes, and sessions, are not covered.",
  [AC + "earley.go", AC + "grammar.go"],
  [("predict, scan, complete", AC + "earley.go"), ("rule table", AC + "grammar.go")],
  ["NewEarleyParser", "GetSuggestedTokenType"])

p("C15", "Filtering candidates keeps exactly what matches, unchanged",
  "Each candidate filter (prefix, fuzzy) returns exactly the candidates that match the pattern, ignoring case if and only if asked to, each as it was given. "
  "The empty pattern keeps everything and the input set is left alone.",
  ["inputs"], "for every set of candidates, pattern and case mode",
  "No test runs the filters over mixed case or non-ASCII candidates.",
  ["promq/autocomplete/filter.go", "notstdlib/sets/string.go"], [("case folding and matching", "promq/autocomplete/filter.go")],
  ["FilterPrefix", "FilterFuzzy", "Enquote"])

p("C16", "The prompt completes the text before the cursor, wherever that is",
  "At every moment of editing a line, the completer is asked about exactly the text before the cursor, by byte offset, and the suggestions shown are its answers, in order and unchanged.",
  ["histories", "inputs"], "for every sequence of edits and cursor movements over text of any script",
  "Tests type ASCII left to right, where byte offset, character count and display width are all the same number.",
  ["cmd/metrics/autocompleter.go"], [("cursor position handed to the completer", "cmd/metrics/autocompleter.go")],
  ["completion of the prompt's document"])

PL = "promq/term/plot/"

p("C17", "Every sample is plotted where its time and value belong",
  "Automatic axes are the smallest box around the data; with the range of an earlier drawing, the smallest around that range too. Each finite sample stands behind exactly one pixel, in order; pixels of a series have ascending columns; a pixel's column is its samples' time scaled to the grid, its row the mean of their scaled values, under linear and non-linear range scales alike. "
  "Every pixel is inside the grid, for any finite values, and NaN and infinite samples are left out.",
  ["inputs"], "for all series, axes, scales and grid sizes",
  "Golden pictures show three well-behaved series at one or two sizes; spreads near the limits of float64, flat, empty and NaN data are not among them.",
  [PL + "plot.go"], [("projection", PL + "plot.go: ScalePlatonicToScreen"), ("averaging per column", PL + "plot.go: ToScreen")],
  ["DataToPlatonicGraph", "ToScreen"])

p("C18", "Braille characters show exactly the lit pixels",
  "The cell mapping is a one-to-one map of the pixel grid onto the cells. Every character of the box is drawn once, is the braille character whose dots are exactly the lit pixels of its 4 by 2 block with the vertical axis upwards, or a blank when there are none, in the colour of a series that is lit in it.",
  ["inputs"], "for every grid size and set of lit pixels",
  "Golden pictures light few of the 256 patterns and one grid shape.",
  [PL + "plot.go"], [("sub-cell mapping", PL + "plot.go: BrailleCellMapper"), ("dots to rune", PL + "plot.go: DrawBraille")],
  ["BrailleCellMapper", "DrawBraille", "BrailleCellScreenSize"])

p("C19", "Axis ticks are evenly spaced, correctly placed and labelled, and fit the box",
  "Placing ticks always ends. Ticks are within the domain and range, ascending, whole steps from the minimum, start at the minimum, are as many as the density (and for times, the longest series) allows, but for those that would share a column or row, and sit at the column or row of their value. "
  "The domain's end has a tick, and labels are the labeler's words. Margins hold the longest label, and axes, ticks and labels are drawn inside the box and outside the plot.",
  ["inputs"], "for all data, box sizes, tick densities, labelers and scales",
  "Golden pictures cover one data set in a few boxes; flat, tiny, huge, single-point and empty data are not covered.",
  [PL + "axes.go"], [("tick placement", PL + "axes.go: EvenlySpacedTicks"), ("drawing", PL + "axes.go: DrawAxes")],
  ["EvenlySpacedTicks", "DrawAxes"])

p("C20", "Lines between samples are straight and nothing else is drawn",
  "Every sample's pixel is lit, marked as a point and belongs first to the first series with a sample there; any other lit pixel belongs first to the first series whose line crosses it. Between consecutive samples of a series, a non-falling line is drawn with a pixel in every column (or every row, when steeper than diagonal) within half a pixel of the straight line, and no other pixel is lit for that series.",
  ["inputs"], "for every grid and set of series in pixels",
  "Golden pictures contain a handful of slopes.",
  [PL + "plot.go"], [("Bresenham lines", PL + "plot.go: Render")],
  ["Render"])

p("C21", "A graph view draws any data in any box, and only in that box",
  "Whatever the data (empty, flat, NaN, infinite, extreme) and the box (any position and size), drawing a graph view ends without panicking and changes no cell outside its box. "
  "Either nothing is drawn because there is no room, or axes are drawn and every finite sample is a lit dot where it belongs, in its series' colour, with no dots away from the data.",
  ["inputs"], "for all data, boxes, tick spacings and labelers",
  "Tests draw one graph in three boxes.",
  ["promq/term/graph.go", PL + "plot.go", PL + "axes.go"], [("widget", "promq/term/graph.go: FlushTo")],
  ["GraphView.SetBox", "GraphView.FlushTo on a simulation screen"])

TM = "promq/term/"

p("C22", "Split panes tile their box, with the dock capped",
  "A split gives its docked pane min(the size asked for, the space less one line or column, the given percentage of the space rounded down), never less than zero, on the side asked for, and everything else to the other pane. "
  "So at every nesting the panes cover the outer box exactly, without overlap and without leaving it, after every resize and change of dock. "
  "Each size and each flush reaches every pane exactly once.",
  ["inputs", "histories"], "for every tree of splits, box and sequence of sizes",
  "Tests look at single splits of a few sizes.",
  [TM + "split.go"], [("dock capping", TM + "split.go: capDockSize"), ("boxes", TM + "split.go: dockedBox, flexedBox")],
  ["SplitView.SetBox", "SplitView.FlushTo"])

p("C23", "A text box shows the end of what was written, wrapped to its box",
  "After any writes, resizes and flushes, a text box shows exactly the text written so far, wrapped at its width and at newlines, in the style of each write. "
  "Text that does not fit loses its first lines. Combining marks stay with their character, wide characters are never split, and cells the text does not reach are blank. "
  "Nothing outside the box changes, a box without rows or columns draws nothing, and nothing panics.",
  ["inputs", "histories"], "for all text, styles, boxes and orders of writing, resizing and drawing",
  "Tests write fixed texts of plain characters into fixed boxes.",
  [TM + "textbox.go", TM + "wrapper.go"], [("wrapping", TM + "wrapper.go: WriteString, writeNextCell, Newline")],
  ["TextBox.WriteString", "TextBox.SetBox", "TextBox.FlushTo"])

p("C24", "The prompt's console behaves as a terminal inside its box",
  "Through any sequence of writes, newlines, colours, erasures, cursor moves, index and reverse index, resizes and redraws, what the prompt's pane shows is what a terminal of that size would show, cell by cell with styles. "
  "Cursor moves stop at the edges, writing past the end wraps and scrolls, resizing keeps the contents that still fit, and the cursor is displayed at its place inside the pane. "
  "Each flush asks for one repaint and nothing outside the box is drawn.",
  ["histories"], "for every sequence of console operations and boxes",
  "Tests type a few words and look at a few screens; scrolling, erasing and resizing combine freely.",
  [TM + "prompt.go", TM + "wrapper.go", TM + "withprompt.go"], [("terminal emulation", TM + "wrapper.go: textWrapper"), ("locking wrappers, colours", TM + "prompt.go: cellWriter")],
  ["the console writer given to PromptView.SetupPrompt", "PromptView.SetBox", "PromptView.FlushTo"],
  [("textWrapper.buf and cursor", "contents and cursor of the pane", TM + "wrapper.go")])

p("C25", "Every key reaches the prompt as itself, in order and once",
  "Whatever keys arrive and however reads interleave with them, the prompt reads the typed characters as their UTF-8 bytes, and each special key, with its modifiers, in a read of its own that go-prompt takes for that very key. "
  "Order is kept, nothing is lost, repeated or invented, keys the prompt does not know are skipped, and a read with nothing waiting says so without blocking.",
  ["inputs", "histories"], "for every sequence of keys and interleaving of reads",
  "Tests send three words and the arrow keys.",
  [TM + "prompt.go", TM + "keytobytes.go"], [("collapsing runs of characters", TM + "prompt.go: screenParser.Read"), ("translation", TM + "keytobytes.go: nonRuneKeyToBytes")],
  ["PromptView.HandleKey", "the console parser given to PromptView.SetupPrompt: Read, GetWinSize"])

p("C26", "The event loop shows the current view at the current size, and stops",
  "Through any sequence of key presses, resizes, new views and repaints, once the loop is quiet the screen shows exactly what the latest view paints at the current screen size, with nothing left of earlier views or sizes. "
  "Every key press is passed to the key handler once and in order, the cursor is where it was last shown, and before any event the initial view is drawn. "
  "When the context is closed the screen is shut down exactly once, Run returns without error, and no view is drawn afterwards.",
  ["histories", "schedules"], "for every sequence and burst of events and every moment of shutting down",
  "Tests send one event each to the loop.",
  [TM + "runner.go"], [("event loop", TM + "runner.go: Run")],
  ["Runner.Run", "Runner.RequestUpdate", "Runner.RequestRepaint", "Runner.ShowCursor", "Runner.HideCursor"])

p("C27", "A typed line is handled exactly as edited, and its answer shown",
  "Inside the event loop, the text handed to HandleInput for each line is exactly what a line editor makes of the keys pressed, once per Enter and in order, starting with the initial input if there is one. "
  "The screen shows each prompt with its line followed by the handler's answer, scrolled if need be, and other panes are left alone. "
  "When the handler asks to stop, the prompt and the event loop both return, whatever keys were pressed ahead.",
  ["histories", "schedules"], "for every session of typed lines, editing keys, answers, resizes and typing ahead",
  "Tests enter at most two lines in a fixed pane and never type ahead of a shutdown.",
  [TM + "withprompt.go", TM + "prompt.go", TM + "runner.go"], [("input loop", TM + "withprompt.go: Run"), ("key queue", TM + "prompt.go: screenParser")],
  ["PromptView.Run", "PromptView.HandleInput", "Runner.Run on a simulation screen"])

p("C28", "The prompt can be drawn and resized while it works",
  "One thread may resize, draw and send keys to the prompt widget while go-prompt writes to its console, reads keys and shows the cursor, with no data race, no panic and no deadlock. "
  "The cursor is only ever shown inside a box that the prompt had. "
  "Afterwards the console still works as a terminal in the last box.",
  ["schedules"], "for every pair of concurrent histories of the prompt's thread and the drawing thread",
  "Races depend on schedules; tests run without concurrent resizes.",
  [TM + "prompt.go", TM + "withprompt.go"], [("lock around the text", TM + "prompt.go: cellWriter.textMu")],
  ["PromptView.SetBox", "PromptView.FlushTo", "PromptView.HandleKey", "the console given to PromptView.SetupPrompt"])

CLI = "cmd/"
p("C29", "Every output format carries the query's result unchanged",
  "Formatting a query result as json, yaml or prometheus keeps every series in order with all its labels, every time stamp and every value exactly, so that reading the text back gives the result again: vectors, matrices, scalars and strings, whatever their label values (quotes, line breaks, YAML and JSON look-alikes) and values (NaN, infinities, extremes). "
  "Colours only add terminal codes, and none are added without a terminal. A failed query or an unknown format gives an error and no text, and the result itself is not changed.",
  ["inputs"], "for every result of every type, every format, with colours or without",
  "No test covers the output formats; escaping and number formatting range over all label values and floats.",
  [PROM + "output.go"], [("formatters", PROM + "output.go: ToPrettyFormat, ToPrettyColoredJson, ToYaml, ToPrometheusFormat")],
  ["prom.ToPrettyFormat"])

p("C30", "One-shot promq prints the one right answer, or fails and prints none",
  "promq without -c scrapes every target given by -t (or else /metrics of the kubeconfig's cluster, with its credentials), and prints once, in the chosen format, exactly what Prometheus answers to the query over everything served, each series carrying its target's URL as instance; with no query, every current series. "
  "With -l it prints instead each distinct metric with its label names, sorted. "
  "If any target cannot be fetched or parsed in full (refused, error status, cut short, malformed), or the query or format is not valid, the command fails and prints nothing on standard output. After it returns nothing more is printed or fetched.",
  ["inputs", "faults"], "for every set of endpoints, content, fault, query, format and way of giving the flags",
  "No test runs the command; faults and their position among several targets cannot be enumerated by hand.",
  [CLI + "promq.go", CLI + "metrics/metrics.go", CLI + "cli/flags.go", PROM + "output.go", PROM + "parse.go"],
  [("scraping all targets", CLI + "metrics/metrics.go: DataSources, httpSource"), ("one-shot run", CLI + "metrics/metrics.go: Run"), ("flags", CLI + "promq.go")],
  ["cmd.NewCmdPromQ: flags, output stream, returned error", "HTTP requests at the targets"])

p("C31", "Plotted series are exactly those of the query's result",
  "Turning a matrix into series to plot gives one series per result series, in order, with every point's time and value copied exactly (also after the query's buffers are reused), titled with its label values. "
  "Its id lies in 1..255, so that it is a colour and never the id that means nothing, and depends on the labels alone: a series keeps its colour from one result to the next. "
  "A failed query or any other type of result gives an error.",
  ["inputs"], "for every result and every order of its series",
  "No test covers the conversion; ids are hashes of arbitrary label sets.",
  [CLI + "metrics/data.go"], [("conversion", CLI + "metrics/data.go: PromResultToPromSeriesSet")],
  ["metrics.PromResultToPromSeriesSet: Title, Id, Points"])

p("C32", "The set types obey set algebra and leave their operands alone",
  "For all six element types and any history of operations, membership, insertion, deletion, union, intersection, difference, inclusion, equality, size, PopAny and key sets agree with mathematical sets; List is sorted and complete. "
  "Union, intersection and difference give new sets: later changes to operands or results never show in one another.",
  ["histories"], "for every history of operations over several sets whose results become operands",
  "The set types have no tests of their own; aliasing only shows after several steps.",
  ["notstdlib/sets/byte.go", "notstdlib/sets/int.go", "notstdlib/sets/int32.go", "notstdlib/sets/int64.go", "notstdlib/sets/string.go", "notstdlib/sets/uint64.go"],
  [("set operations", "notstdlib/sets/*.go")],
  ["every exported method of sets.Byte, Int, Int32, Int64, String, Uint64"])

p("C33", "The interactive session shows the current answer to the current query",
  "promq -c in a terminal: each line typed and entered is the one query evaluated from then on; the prompt reports it, or its error, under the line. "
  "Within a few scrape periods the key lists exactly one entry for each series of the current answer, titled with its labels, and the graph is drawn in those entries' colours only, on axes whose value labels fit the answer and whose time labels are minutes and seconds of the last minute. "
  "Tab completes as the completion engine offers. Resizing the terminal and endpoints that fail or come back while it runs leave the session working. "
  ":q ends it with status 0 and the terminal as it was before; a target that fails at the start gives a nonzero status.",
  ["histories", "schedules", "faults"], "for every session of queries, edits, completions, resizes, content changes and endpoint failures",
  "No test runs the command; the session couples scraping, evaluation, drawing and the prompt in concurrent goroutines.",
  [CLI + "promq.go", CLI + "metrics/metrics.go", CLI + "metrics/autocompleter.go", CLI + "metrics/data.go", "promq.go"],
  [("start-up order", CLI + "metrics/metrics.go: Run, runInteractiveChart"), ("screen", CLI + "metrics/metrics.go: makeGraph, makeKey"), ("completion", CLI + "metrics/autocompleter.go")],
  ["the promq binary: bytes on its pseudo-terminal, exit status, HTTP requests at the targets"])

p("C34", "Label names and values can be looked up exactly",
  "Asking the store's querier for the label names, or for the values of one label, gives those that occur on the stored series that satisfy the given matchers (on every stored series if there are none), each once, names in sorted order; nothing internal to the index shows up. "
  "This holds after any history of loads and retention cuts: what only removed series had is gone, what came back is there again. Repeating the question gives the same answer, whatever the caller did with the first.",
  ["histories", "inputs"], "for every history of loads and retention cuts and every lookup with any matchers",
  "No test calls the lookups; matchers and histories cannot be enumerated by hand.",
  [PROM + "query.go", PROM + "postings.go"], [("lookups", PROM + "query.go: memQuerier.LabelValues, LabelNames"), ("index", PROM + "postings.go: Add, Delete")],
  ["Querier.LabelNames", "Querier.LabelValues"])

p("C35", "Debug logging watches and changes nothing",
  "With PQ_DEBUG_LOG_DIRECTORY naming a directory, debug.log and error.log there receive what happens, after whatever they held before, also when several processes share the directory. "
  "The suggestions made are the same as without it, nothing is printed to the terminal and no other file is touched. "
  "A directory that cannot be used is the same as none, and without the variable no file is written.",
  ["inputs", "faults"], "for every session of completions, every state of the directory and any number of processes",
  "No test sets the variable; it is read when the process starts.",
  ["debug/log.go", "debug/debug.go", "debug/error/error.go", "promq/autocomplete/earley/earley.go", PROM + "indexer.go"], [("loggers", "debug/log.go: NewDebugLogger")],
  ["suggestions of a process with the variable set", "its standard output and error", "files"])

p("C36", "Nothing typed or happening ends the interactive session but its end",
  "Whatever keys, words, control and function keys and pasted text come in, at any speed, however the terminal is resized (down to one cell), and whatever the endpoints serve meanwhile (garbage, failures, delays, many series), promq -c neither crashes nor hangs nor has a data race: :q still ends it with status 0 and the terminal as it was.",
  ["histories", "schedules", "faults"], "for every interleaving of keys, resizes and endpoint changes",
  "No test runs the command; races and crashes depend on what meets when.",
  [CLI + "metrics/metrics.go", CLI + "metrics/autocompleter.go", TM + "runner.go", TM + "prompt.go", TM + "withprompt.go", TM + "graph.go", PROM + "multi.go", PROM + "indexer.go"],
  [("event loop", TM + "runner.go: Run"), ("prompt", TM + "withprompt.go: Run"), ("scraping", CLI + "metrics/metrics.go: scrape")],
  ["the promq binary built with the race detector: exit status, race reports, terminal modes"])

p("C37", "The chart is the picture of the window's samples",
  "In a continuous session over any window and period (promq itself has a minute and a second), the graph beside the key becomes, within a few periods of a new query, a new sample or a resize, the drawing of the query's answer at every period step over the window that ends at the latest scrape: "
  "its steps, values and order of series, on a range that has held every answer since the query was set, with value labels of five digits. The time labels are in the unit that suits the window: raw milliseconds below a minute, minutes and seconds below an hour, hours and minutes below a day, day and hour below ten days, month and day from there on. "
  "Samples with times of their own count at those times, wherever in the window and in whatever order they were served.",
  ["inputs", "histories"], "for every window, period, set of timestamped samples, query, size and history of changes",
  "No test draws a chart of scraped data, or over another window than the default.",
  [CLI + "metrics/metrics.go", CLI + "metrics/data.go", "promq/term/graph.go", "promq/prom/multi.go"],
  [("time labels", CLI + "metrics/metrics.go: makeView's DomainLabeler"), ("window", "promq/prom/multi.go: ManuallyExecuteQuery"), ("points", CLI + "metrics/data.go: PromResultToPromSeriesSet"), ("kept range", CLI + "metrics/metrics.go: Callback; promq/term/plot/plot.go: WithPreviousRange")],
  ["the promq binary, and metrics.MetricsCommand.Run with other windows: bytes on a pseudo-terminal"])
