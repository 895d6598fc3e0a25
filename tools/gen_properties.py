#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Lexemes are exact, non-empty, ordered, non-overlapping slices of the text",
 "For every language definition and every text, each lexeme that lexing produces is a non-empty piece of text that is found at exactly the reported position, and successive lexemes never overlap or go back in the text. When every lexicon has a default action, the lexemes together cover the complete text, apart from a character skipped to escape a circular jump. Splitting a match over sub-groups, delegating it to another lexicon, or skipping it keeps all of this true.",
 ["inputs", "programs"], "all texts x all language definitions (pattern rules, default action, default target, static and dynamic actions whose groups are captured left to right inside the match)",
 "The tests lex a few fixed texts with a few bundled languages; there are about a dozen different parse loops, selected by the shape of the lexicon, and most are never run on adversarial text.",
 ["parce/lexicon.py", "parce/lexer.py", "parce/ruleitem.py"],
 [("the parse function variants", "parce/lexicon.py: Lexicon._get_parse_function"),
  ("event generation", "parce/lexer.py: Lexer.events"),
  ("dynamic actions", "parce/lexer.py: Lexer.filter_actions; parce/ruleitem.py: SubgroupAction/DelegateAction/SkipAction.replace")],
 [("pos", "text position up to which everything has been consumed", "Lexer.events / parse closures")],
 ["parce.events()", "parce.lexer.Lexer.events()"])

prop("C02", "Event targets replay the lexicon stack exactly; the root is never left",
 "Starting from the initial lexicons and following the targets of the generated events in order gives, at each event, exactly the stack of lexicons that is active when the event's lexemes are produced. The root lexicon is never popped off, no matter how many levels a rule wants to leave. Combining several targets into one has the same effect as following them one after another.",
 ["inputs", "programs", "histories"], "all sequences of targets; all texts x all language definitions",
 "Tests check a handful of target combinations; the composition law must hold for every sequence of pops and pushes, including pops that reach below what was pushed before.",
 ["parce/target.py", "parce/lexer.py"],
 [("target composition", "parce/target.py: TargetFactory.add/push/pop/get/make"),
  ("clamping and following of targets", "parce/lexer.py: Lexer.events")],
 [("lexicons", "the current state, last one is the current lexicon", "Lexer.lexicons"),
  ("_pop, _push", "pending combined target", "TargetFactory")],
 ["parce.events()", "parce.lexer.Lexer.lexicons", "parce.target.TargetFactory"])

prop("C03", "Lexing any text terminates, also with circular or empty matches",
 "For every language whose zero-width rules and default targets do not push lexicons without bound, lexing every text comes to an end. Zero-width matches and default targets that jump back and forth between lexicons, pop at the root level, or occur at the end of the text cannot keep the lexer at the same position forever.",
 ["inputs", "programs"], "all texts x all language definitions without run-away pushes",
 "A test can only show termination for the languages it lists; the dangerous cases are combinations of zero-width rules and targets in different lexicons.",
 ["parce/lexer.py", "parce/lexicon.py"],
 [("circular state detection", "parce/lexer.py: Lexer.events"), ("zero-width match handling", "parce/lexicon.py: Lexicon._get_parse_function")],
 [("circular", "zero-width state changes already seen at this position", "Lexer.events")],
 ["parce.events()"])

prop("C04", "The tree mirrors the event stream and is structurally well-formed",
 "The tree built for any text holds exactly the lexemes of the event stream as its tokens, in order, each placed under contexts whose lexicons are the active lexicon stack. Every node's parent link points to the context that contains it, no context except the root is empty, and tokens that stem from one event with several lexemes are adjacent siblings carrying consistent group numbers. A context's position and end equal those of its first and last token.",
 ["inputs", "programs"], "all texts x all language definitions",
 "Tests compare a few small dumps; well-formedness must survive every order of pushes and pops and any grouping.",
 ["parce/treebuilder.py", "parce/tree.py"],
 [("tree construction", "parce/treebuilder.py: build_tree, make_tokens"), ("group numbering", "parce/tree.py: make_tokens/GroupToken"), ("position properties", "parce/tree.py: Context.pos/end")],
 [("parent/children", "tree links", "parce/tree.py: Node, Context")],
 ["parce.root()", "parce.treebuilder.build_tree()"])

prop("C05", "Searching a tree by text position returns exactly the right node",
 "For every tree and every position, asking for the token at, just before, or just after a position gives the token that a linear scan over all tokens would give: the one whose text range contains the position, the last one that ends at or before it, the first one that starts at or after it, as documented. The same holds for finding a direct child or a context by position, and for first and last tokens.",
 ["inputs", "programs"], "all well-formed trees, all positions, including gaps between tokens and both ends of the text",
 "The search is a set of hand-written binary searches over nested contexts; off-by-one errors only show at particular boundary positions of particular trees.",
 ["parce/tree.py"],
 [("binary searches", "parce/tree.py: Context.find, find_left, find_right, find_token, find_token_left, find_token_after, find_token_before, find_context"), ("first/last", "parce/tree.py: Context.first_token/last_token")],
 [("children", "sorted on position", "parce/tree.py: Context")],
 ["parce.tree.Context"])

prop("C06", "Tree navigation visits nodes in document order, each exactly once",
 "Walking forward or backward from any node yields precisely the tokens that come after or before it in the text, in that order, each once and bounded by the given ancestor; siblings, ancestors, indexes, roots and common ancestors agree with the shape of the tree. Copying a tree gives an equal, independent tree, and equality compares structure, positions, texts and actions.",
 ["inputs", "programs"], "all well-formed trees, all pairs of nodes",
 "Tests navigate one or two small trees; correctness for every node pair in every shape is a structural induction, not a sample.",
 ["parce/tree.py", "parce/util.py"],
 [("navigation", "parce/tree.py: Node.parent_index, right_sibling(s), left_sibling(s), forward, backward, ancestors, common_ancestor"), ("copy and equality", "parce/tree.py: copy, equals")],
 [("parent, index", "position of a node in its parent", "parce/tree.py: Node")],
 ["parce.tree.Node", "parce.tree.Context", "parce.tree.Token"])

prop("C07", "A tree range covers precisely the tokens overlapping the text range",
 "Selecting a text range in any tree yields exactly the tokens that overlap the range (or nothing when the range lies where there are no tokens), in text order and each once. The slices, nodes and targets that a range reports reproduce those tokens and the lexicon stack that is active at each of them.",
 ["inputs", "programs"], "all well-formed trees, all start/end pairs",
 "Tests take a couple of ranges in one document; ranges inside gaps, across several nesting levels and at context boundaries are not sampled.",
 ["parce/tree.py"],
 [("range computation and slicing", "parce/tree.py: Context.range, Range.from_tree, from_tokens, slices, tokens, nodes")],
 [("start_trail, end_trail", "index trails of the range borders", "parce/tree.py: Range")],
 ["parce.tree.Context.range()", "parce.tree.Range"])

prop("C08", "Incremental re-lexing gives the same tree as lexing the new text from scratch",
 "After any sequence of edits, the incrementally updated tree of a document equals the tree that is built from scratch for the resulting text, and remains well-formed. This holds for every language whose rules only look a bounded distance ahead, whose matches start with a token, and in which a rule that tests the preceding text has an action of its own; also when several edits are collected before an update.",
 ["inputs", "histories", "programs"], "all edit histories on all texts, with context-bounded languages; single and collected edits",
 "Tests perform a few edits on one text; the reuse of unchanged tokens on both sides depends on the precise edit position, context depth and groups.",
 ["parce/treebuilder.py", "parce/treebuilderutil.py", "parce/work.py"],
 [("restart point", "parce/treebuilderutil.py: get_prepared_lexer, events_with_tokens, same_events"), ("tail reuse and splicing", "parce/treebuilder.py: build_new_tree, replace_tree"), ("edit merging", "parce/treebuilderutil.py: Changes")],
 [("changes", "pending edits", "TreeBuilder")],
 ["parce.treebuilder.TreeBuilder.rebuild()", "parce.Document.get_root()"])

prop("C09", "Merging successive edits yields one edit region that accounts for all of them",
 "When several successive edits are merged into one (start, removed, added) region, replacing that region in the oldest text by the matching part of the newest text gives exactly the newest text, whatever the order and position of the edits. Everything outside the region is unchanged, and translating an old position through the merged edit agrees with that.",
 ["inputs", "histories"], "all sequences of in-range edits on all texts",
 "Tests merge two or three edits in a fixed order; errors show only for particular relative positions (before, inside, overlapping, after).",
 ["parce/treebuilderutil.py"],
 [("merge", "parce/treebuilderutil.py: Changes.add"), ("mapping", "parce/treebuilderutil.py: Changes.new_position")],
 [("start, removed, added", "merged region", "Changes")],
 ["parce.treebuilderutil.Changes"])

prop("C10", "Document edits are equivalent to splicing a string and are reported correctly",
 "Any set of non-overlapping edits made in one edit context changes the text to exactly what replacing those ranges of the original text yields, and one change notification is given whose position, removed and added lengths describe the difference; edits that start at the same position are joined in the order they are made. An edit that starts inside the range of an earlier starting one raises an error and leaves text and document usable and unchanged, and an exception inside the context cancels all its edits. Replace, regular expression substitution, trimming and translating within a region behave as the same operation on a plain string.",
 ["inputs", "histories"], "all texts, all sets of slice edits (also nested contexts, negative indexes), all exceptions inside a context",
 "Tests apply a few edits; ordering, adjacency, equal positions, negative indexes and failure paths multiply beyond any sample.",
 ["parce/mutablestring.py", "parce/document.py"],
 [("collecting and ordering edits", "parce/mutablestring.py: __setitem__, _get_changes, _apply_changes, __exit__"), ("splice", "parce/mutablestring.py: MutableString._update_text"), ("bulk edits", "parce/document.py: replace, re_sub, trim, translate")],
 [("_changes", "pending edits of the context", "AbstractMutableString"), ("_edit_context", "nesting depth", "AbstractMutableString")],
 ["parce.document.Document", "parce.mutablestring.MutableString", "text_change event"])

prop("C11", "Undo and redo restore text and modified state exactly, for any history",
 "For any history of edits that change the text, undoing step by step gives back every earlier text in reverse order, and redoing gives the later ones again; a new edit discards what could be redone. The modified state after undo or redo is false exactly when the text is back at the point where it was last marked unmodified, and availability notifications for undo and redo agree with what is available.",
 ["inputs", "histories"], "all histories of (compound) edits, undo, redo and changes of the modified flag",
 "Tests undo one or two edits; compound edits with adjacent deletions and insertions and long mixed histories are not covered.",
 ["parce/document.py"],
 [("reverse edits", "parce/document.py: Document._reverse_changes"), ("stacks", "parce/document.py: _store_undo, _apply_undo_redo, modified setter")],
 [("_undo_stack, _redo_stack", "stored reverse edits", "Document")],
 ["parce.document.Document.undo()/redo()", "modified", "undo_available/redo_available events"])

prop("C12", "Cursors keep pointing at the same text through any edit",
 "After any set of edits made in one context, each cursor position before an edit stays the same, each position after it moves by the change in length, and a position inside or at the end of replaced text ends up at the border of the replacement: the start of a cursor goes before the new text, its end after it. This holds for every number of cursors and edits at once, and a cursor end that denotes the end of the document keeps doing so.",
 ["inputs", "histories"], "all texts, all sets of non-overlapping edits in one context, all sets of cursors with start <= end",
 "Tests move one cursor by one edit; the interaction of several edits with several cursors is what goes wrong.",
 ["parce/document.py"],
 [("cursor update", "parce/document.py: AbstractDocument._update_cursors")],
 [("pos, end", "cursor borders", "Cursor")],
 ["parce.document.Cursor"])

prop("C13", "Blocks partition the text into lines, consistently in all ways to reach them",
 "The blocks of any document are exactly the lines of its text: joined with the separator they give the text, and every position belongs to one block. Finding a block by position or by (negative) number, stepping to the next or previous block, iterating a region, counting, block numbers and first/last queries all agree with that list.",
 ["inputs"], "all texts (also empty, and ending in a separator), all positions and numbers",
 "Tests use one text; the boundary cases are at separators, empty lines, and the document's ends.",
 ["parce/document.py"],
 [("block search", "parce/document.py: find_start_of_block, find_end_of_block, find_block, find_block_by_number, blocks"), ("stepping", "parce/document.py: Block.next_block, previous_block, block_number, is_first, is_last")],
 [("pos, end, block number", "line borders", "Block")],
 ["parce.document.Document", "parce.document.Block"])

prop("C14", "Formatting keeps the text intact: ordered, disjoint ranges inside the region",
 "Formatting any tree or region yields ranges that are ordered, non-empty, do not overlap and stay inside the requested region, with the format that the theme prescribes for the token at that place; formatted text pieces joined together are exactly the original text of the region. Smoothing or splitting adjacent ranges never loses or invents a position, and HTML output shows exactly the original text after unescaping.",
 ["inputs", "programs", "configurations"], "all trees, all start/end regions, all themes",
 "Tests format one snippet; off-by-one boundary errors need particular gaps, regions and adjacent equal formats.",
 ["parce/formatter.py", "parce/util.py", "parce/out/html.py", "parce/theme.py"],
 [("ranges", "parce/formatter.py: Formatter.format_ranges, format_text"), ("range helpers", "parce/util.py: merge_adjacent, merge_adjacent_actions, fix_boundaries"), ("html", "parce/out/html.py")],
 [], ["parce.formatter.Formatter", "parce.out.html.HtmlFormatter"])

prop("C15", "Transforming text, its tree, or an edited document gives the same result",
 "Transforming a text directly from the lexer gives the same result as first building the tree and transforming that. With caching, after any sequence of edits the transformed result of a document equals the result of transforming a freshly built tree of the current text, and an edit never makes transforming fail or stop.",
 ["inputs", "histories", "programs"], "all texts x languages with a transform, all edit histories",
 "Tests transform a few fixed texts; stale cache entries appear only after particular edit sequences.",
 ["parce/transform.py", "parce/treebuilder.py", "parce/work.py"],
 [("event based transform", "parce/transform.py: Transformer.transform_text"), ("tree transform and cache", "parce/transform.py: transform_tree, build, invalidate_node"), ("updates", "parce/work.py: Worker")],
 [("_cache", "results per context", "Transformer")],
 ["parce.transform_text()", "parce.transform_tree()", "Document.get_transform()"])

prop("C16", "Tree queries select exactly the nodes their definition says, in order",
 "Every query on any tree, built by chaining steps, yields exactly the nodes that a direct reading of each step's documentation gives, in document order for each starting node. Filters with negation are exact complements (the negated range filter selects what lies entirely outside the range), removing duplicates keeps the first of each node, slicing and picking work on the result sequence, and deleting selected nodes removes those nodes and nothing else and leaves a well-formed tree.",
 ["inputs", "programs"], "all trees x all chains of query steps",
 "Tests run a few queries on one tree; each step must be right for all trees and compose with all other steps.",
 ["parce/query.py"],
 [("query steps", "parce/query.py: Query.all, children, first, last, next, previous, right, left, siblings, slice, pick, uniq, ..."), ("filters and negation", "parce/query.py: Query.is_not, pquery/pfilter"), ("removal", "parce/query.py: Query.delete/remove_*")],
 [], ["parce.tree.Node.query"])

prop("C17", "Standard actions form a strict hierarchy of singletons",
 "Asking for the same (sub-)action twice gives the identical object, and also after copying. An action belongs to exactly itself and its ancestors, intersecting two actions gives their deepest common ancestor or nothing, and iterating an action gives the path from itself to the root.",
 ["inputs", "histories"], "all action paths of any depth",
 "Tests use a few predefined actions; the laws must hold for all paths.",
 ["parce/standardaction.py"],
 [("singletons and hierarchy", "parce/standardaction.py: StandardAction.__getattr__, __contains__, __and__, __iter__")],
 [("_parent", "the parent action", "StandardAction")],
 ["parce.standardaction.StandardAction"])

prop("C18", "Generated regular expressions match exactly the given words or characters",
 "The regular expression built from any set of words fully matches each of those words and no other text, and prefers the longest alternative where words are prefixes of each other. A character class built from any set of characters matches just those characters, the negated one just the others. A pattern that is recognised as a plain string is replaced only by the one string it matches, and rules that try to match literal characters keep that meaning.",
 ["inputs"], "all finite sets of words over any characters (also special, non-ASCII and empty), all patterns",
 "Tests try a few lists; prefix/suffix factoring and escaping only fail for particular combinations.",
 ["parce/regex.py", "parce/unicharclass.py"],
 [("word lists", "parce/regex.py: words2regexp, make_trie, trie_to_regexp, build_regexp"), ("character classes", "parce/regex.py: make_charclass"), ("plain strings", "parce/regex.py: to_string")],
 [], ["parce.regex", "parce.rule.words", "parce.rule.chars"])

prop("C19", "Language lookup finds the best match and honours the fallback",
 "For any registry contents, finding a language by name or alias ignores case and gives that language if present; guessing by filename, mimetype or contents returns the matching root lexicon with the highest score, consulting the fallback registry where this one has nothing. Suggestions are ordered by score, and lookups without any match give nothing or the default, never an error.",
 ["inputs", "configurations"], "all registries (also empty ones with a fallback), all names, filenames, mimetypes, contents",
 "Tests ask the bundled registry for some names.",
 ["parce/registry.py"],
 [("lookup", "parce/registry.py: Registry.find, suggest, filter, by_*"), ("fallback", "parce/registry.py: Registry fallback chaining")],
 [], ["parce.registry.Registry", "parce.find()"])

prop("C20", "Reading back what was written gives the same text, with the right encoding",
 "For every text and every encoding that can express it, decoding the bytes that were encoded gives the same text back, also when the encoding is the one named in the text. A byte order mark always determines the right encoding and is not part of the text; a file that is saved by a document and loaded again, without newline translation, has the same text. An unusable encoding named in the text is ignored.",
 ["inputs", "configurations"], "all texts, all encodings, with and without byte order mark or encoding declared in the text",
 "Tests do not cover encodings at all; the order in which marks are tried matters since one is a prefix of another.",
 ["parce/util.py", "parce/docio.py"],
 [("byte order marks", "parce/util.py: get_bom_encoding"), ("encode/decode", "parce/docio.py: IO, DocumentIOMixin"), ("declared encodings", "parce/docio.py: find_encoding")],
 [], ["parce.util.get_bom_encoding()", "parce.Document.load()/save()"])

prop("C21", "Every connected slot is called exactly as often and in the order requested",
 "Emitting an event calls every connected slot once, in order of priority and then of connection, with the arguments of the event; a slot connected for one time only is called once and a disconnected slot is never called again. This remains true when slots connect, disconnect or emit while being called, also for weakly referenced methods.",
 ["inputs", "histories"], "all sequences of connect, disconnect, emit, also re-entrant from within slots",
 "No test exercises re-entrant connects and disconnects; order and multiplicity depend on the history.",
 ["parce/util.py"],
 [("slots", "parce/util.py: Observable.connect, disconnect, emit, has_connections, is_connected, inhibit_events")],
 [("_callbacks", "connected slots per event", "Observable")],
 ["parce.util.Observable"])

prop("C22", "CSS style lookup follows the cascade and colours and formats keep their values",
 "For every style sheet and element, the resulting properties are those of the cascade: a selector matches exactly the elements it describes, important declarations win over normal ones, then rules with a higher specificity (of their most specific selector), then later rules. Combining text formats keeps, for each property, the value of the last that sets it, and colour values survive conversion.",
 ["inputs", "configurations"], "all style sheets x all elements; all text formats; all colour notations",
 "Tests look up a few rules in one sheet; the order of importance, specificity and position is a total order over all rule sets.",
 ["parce/css.py", "parce/theme.py"],
 [("selection", "parce/css.py: StyleSheet, Style, Element matching, Rule specificity"), ("cascade", "parce/css.py: Style.properties"), ("formats", "parce/theme.py: TextFormat")],
 [], ["parce.css.StyleSheet", "parce.theme.Theme"])

prop("C23", "Automatic indenting changes only leading whitespace and is idempotent",
 "Indenting any range of any document changes nothing but the leading whitespace of the lines in that range: every line keeps its other text and the number of lines stays the same. Indenting a second time changes nothing, and increasing and then decreasing the indent of a range gives the original lines back.",
 ["inputs", "histories"], "all documents, all ranges of lines, all indent settings",
 "Tests indent a few fixed snippets.",
 ["parce/indent.py"],
 [("indenter", "parce/indent.py: Indenter.indent, auto_indent, increase_indent, decrease_indent, indent_info")],
 [], ["parce.indent.Indenter"])

prop("C24", "Dynamic rule items evaluate consistently, now or partially in advance",
 "For every dynamic rule item and every match or lexicon argument, evaluating it in one go gives the same as first evaluating the part that depends on the lexicon argument and then the rest with the match. Selections pick precisely the indexed value, conditions the right branch, the listed variations of a rule contain every result, and a derived lexicon with a given argument is one and the same object each time it is asked for.",
 ["inputs", "programs"], "all rule item expressions x all arguments and match texts",
 "Tests use a few rule forms in one language.",
 ["parce/ruleitem.py", "parce/rule.py", "parce/lexicon.py"],
 [("evaluation", "parce/ruleitem.py: RuleItem.evaluate, pre_evaluate, pre_evaluate_rule, evaluate_rule, needs_evaluation"), ("derived lexicons", "parce/lexicon.py: Lexicon.__call__, _derive")],
 [], ["parce.rule", "parce.ruleitem"])

prop("C25", "Results of background processing are complete and current under any schedule",
 "Whatever the interleaving of edits, background tokenizing or transforming and readers that wait for a result, a waiting reader always gets the result that belongs to the text at the time of asking (or a later one), and no wait blocks forever.",
 ["schedules", "histories"], "all interleavings of the editing thread and the background thread",
 "Tests run the worker without contention; races need particular interleavings.",
 ["parce/work.py"],
 [("worker", "parce/work.py: Worker, BackgroundWorker")],
 [], ["parce.work.BackgroundWorker.get_root()/get_transform()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
