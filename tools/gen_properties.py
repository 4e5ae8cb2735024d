#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited as text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DS, II, LIB, PL, CM, EN = "src/document_store.rs", "src/inverted_index.rs", "src/lib.rs", "src/pipeline.rs", "src/lang/common.rs", "src/lang/en.rs"
MOD = "src/lang/mod.rs"

prop("C01", "Stored-document count is exact after every add and remove",
     "After any sequence of adding and removing documents, the length that a document store carries (and serializes) equals the number of distinct document references it holds. Adding a reference that is already stored, or removing one that is not, leaves the count unchanged, whether or not document saving is on.",
     ["histories"], "every sequence of add/remove calls on a store, with any references, saving on or off",
     "the unit tests run a handful of fixed add/remove sequences; a wrong count on re-adding, or with saving off, needs a history they do not contain",
     [DS], [("membership test before the counter changes", DS + " add_doc/remove_doc")], ["DocumentStore::add_doc", "DocumentStore::remove_doc", "DocumentStore::len", "serialized documentStore.length"],
     [("length", "redundant counter, serialized", DS), ("docs", "map from reference to stored text", DS)])
prop("C02", "Saving off stores no document text; saving on stores it unchanged",
     "A document store created with saving off never keeps any field text of a document: after adding, the reference is known but its stored document is empty. With saving on, the stored document is exactly the one most recently added under that reference. This holds for first additions and for re-additions alike.",
     ["inputs", "histories"], "every document, every history of additions, both values of the save setting",
     "tests add one or two documents once; text leaking on a second addition, or only for some content, is outside what they sample",
     [DS], [("the save flag selects between the document and an empty map", DS + " add_doc")], ["DocumentStore::add_doc", "DocumentStore::get_doc"],
     [("save", "whether text is kept", DS)])
prop("C03", "Removing a document removes all of its data and nothing else",
     "Removing a document from the store deletes its stored text and its recorded field lengths, so that no later lookup, re-addition or serialization shows any of them. No other document's text or lengths change.",
     ["histories"], "every store content and every reference, known or unknown",
     "tests remove from stores without field lengths and look only at the text; left-over lengths show only after remove, re-add, lookup",
     [DS], [("both per-document maps are keyed by the reference and both drop the key", DS + " remove_doc")], ["DocumentStore::remove_doc", "DocumentStore::get_field_length", "serialized documentStore.docInfo"],
     [("doc_info", "field lengths per document", DS)])
prop("C04", "Document frequency equals the number of documents holding the token",
     "For every token of an inverted index, after any sequence of token additions and removals, the document frequency that is reported and serialized equals the number of documents recorded under that token. Adding a token again for the same document replaces its term frequency without counting the document twice; removing a pair that is not recorded changes nothing.",
     ["histories", "inputs"], "every sequence of add_token/remove_token calls with any references and tokens",
     "tests check a few fixed sequences over ASCII tokens; the invariant must hold in every node after every history",
     [II], [("df changes exactly when the set of documents changes", II + " IndexItem::add_token/remove_token")], ["InvertedIndex::get_doc_frequency", "InvertedIndex::get_docs", "serialized df"],
     [("df counter", "redundant with the size of docs", II), ("docs", "documents recorded at this node", II)])
prop("C05", "A token is recorded, found and removed at exactly its own characters",
     "Adding a token for a document records the document and its term frequency at the entry reached by all of the token's characters in order, and at no other entry: prefixes, extensions and other tokens gain no document. Looking a token up and removing it use that same sequence of characters, also for multi-byte characters. An empty token is ignored when adding and removing.",
     ["inputs"], "every token (any Unicode text, any length), every reference",
     "tests use short ASCII tokens; skipping, repeating or stopping at a character shows only for particular tokens",
     [II], [("cursor descends one child per character, insertion happens after the last one", II + " IndexItem::add_token"), ("lookup and removal walk the same characters", II + " get_node/remove_token")],
     ["InvertedIndex::add_token", "InvertedIndex::remove_token", "InvertedIndex::has_token", "InvertedIndex::get_docs"])
prop("C06", "Lookups of one token agree with each other and change nothing",
     "For every token and document, presence, document map, term frequency and document frequency are all read from the same entry of the inverted index: an unknown token is reported absent with no document map and zero frequencies, and for a known token the term frequency of a document is the one in its document map (zero if the document is not in it). No lookup on an inverted index or document store modifies it.",
     ["inputs", "histories"], "every index content, token and reference",
     "agreement of four query functions over all tokens and histories is sampled only at a few tokens",
     [II, DS], [("all queries go through one traversal", II + " get_node")], ["InvertedIndex::has_token", "InvertedIndex::get_docs", "InvertedIndex::get_term_frequency", "InvertedIndex::get_doc_frequency", "DocumentStore::get_doc", "DocumentStore::get_field_length"])
prop("C07", "A document's tokens are indexed only under their own field",
     "Adding a document records, in each field's inverted index, only tokens produced from that field's own text of that document, and records all of them under that document's reference. Tokens of other fields, of earlier fields, or of earlier documents never enter.",
     ["inputs", "histories"], "every document, number of fields and history of additions",
     "two tests check one pair of fields; leaks that depend on order, count or content of fields are not sampled (a leak was fixed as #60)",
     [LIB], [("token counts are created afresh for each field and flushed into that field's index", LIB + " Index::add_doc")], ["Index::add_doc", "serialized index.<field>"])
prop("C08", "Term frequency is the square root of the token's occurrence count",
     "The term frequency recorded for a token, document and field is the square root, in double precision, of the number of times the token occurs among the tokens that the pipeline returned for that field, counting every occurrence exactly once.",
     ["inputs"], "every text and token multiplicity",
     "tests check counts 1 and 3",
     [LIB], [("per-field counter incremented once per token, sqrt taken when flushed", LIB + " Index::add_doc")], ["Index::add_doc", "serialized tf"])
prop("C09", "Field length counts exactly the tokens the pipeline kept",
     "For every document and every field given (other than one named like the reference key), the recorded field length is the number of tokens that the pipeline returned for that field's text, including zero, recorded under that document's reference and that field's name.",
     ["inputs"], "every text, including text that yields no token",
     "fixtures check ordinary sentences; counting before filtering, or skipping empty results, shows only on other inputs",
     [LIB, DS], [("length of the pipeline's result is recorded before counting", LIB + " Index::add_doc")], ["Index::add_doc", "DocumentStore::get_field_length", "serialized docInfo"])
prop("C10", "The stored document is the reference plus each field's text verbatim",
     "Adding a document puts into the document store, under its reference, one document consisting of the reference under the reference key and the unmodified text of each given field under that field's name, and nothing else. It is stored exactly once per addition, also when fields are empty or yield no tokens.",
     ["inputs"], "every document, reference key and field list",
     "one test looks at one stored document",
     [LIB], [("document map is filled from the arguments in order and handed to the store after the last field", LIB + " Index::add_doc")], ["Index::add_doc", "serialized documentStore.docs"])
prop("C11", "Field names, tokenizers and per-field indices stay aligned",
     "However an index is built, its fields keep the order in which they were added and are pairwise distinct (adding a name twice panics), each position has exactly the tokenizer given with that field (or none), and there is exactly one, initially empty, inverted index per field.",
     ["inputs", "histories"], "every sequence of builder calls",
     "tests build with add_fields only; a misaligned tokenizer list needs mixed builder calls",
     [LIB], [("two vectors pushed in lockstep after a duplicate check", LIB + " IndexBuilder"), ("index map built from the field list", LIB + " IndexBuilder::build")], ["IndexBuilder::add_field", "IndexBuilder::add_field_with_tokenizer", "IndexBuilder::add_fields", "IndexBuilder::build", "Index::get_fields"],
     [("fields / field_tokenizers", "parallel vectors", LIB)])
prop("C12", "Builder settings reach the built index and are the ones used",
     "The built index uses the reference key, save setting and language that were last given to the builder (defaults: key \"id\", saving on, English); its pipeline is the one made by that language. A field with its own tokenizer is split by that tokenizer, every other field by the index's language, and both are then filtered by the index's pipeline.",
     ["configurations", "inputs"], "every builder configuration",
     "no test uses set_ref, save_docs(false) through the builder, or a custom tokenizer",
     [LIB], [("builder fields are moved into the index", LIB + " IndexBuilder::build"), ("tokenizer choice", LIB + " Index::add_doc")], ["IndexBuilder", "Index::add_doc", "Index::new", "Index::with_language"])
prop("C13", "The pipeline applies every function in order and keeps order",
     "Running a pipeline passes each token, in order, through every function of the queue from first to last, feeding each function the previous one's result; a token is dropped exactly when some function drops it, and then no later function sees it. The result is the surviving tokens in input order, each once.",
     ["inputs", "programs"], "every queue of functions and every token list",
     "tests run the built-in pipelines on fixed texts",
     [PL], [("nested loop threading an optional token", PL + " Pipeline::run")], ["Pipeline::run"])
prop("C14", "Language registry is complete and consistent in every feature set",
     "In every combination of language features, the languages listed, those found by code and those found by name are the same: English plus exactly those whose feature is on. Each entry is found under exactly the code and the name that the language itself reports (the code in any letter case), and any other code or name is not found.",
     ["configurations", "inputs"], "every feature set, every code and name string",
     "tests run only with all features on and never look languages up by code or name",
     [MOD, "src/lang/*.rs"], [("one macro table generates list, lookups and modules", MOD + " impl_language!")], ["lang::languages", "lang::from_code", "lang::from_name", "Language::code", "Language::name"])
prop("C15", "Each language's pipeline carries its own functions, named and ordered right",
     "Every language's pipeline runs its trimmer before its stop-word filter before its stemmer, and each function is published under the name that lunr-languages registers for that language: trimmer, stopWordFilter and stemmer followed by a hyphen and the language's own code (no suffix for English). The function behind each name is of that kind, with that language's own word list and stemming algorithm, and the serialized pipeline lists the names of exactly the functions that run, in order.",
     ["configurations"], "every language, every pipeline function",
     "the fixtures compare tokens for one text per language; names are compared for English and Japanese only",
     ["src/lang/*.rs", PL], [("make_pipeline of each language", "src/lang/*.rs"), ("serialization by name()", PL)], ["Language::make_pipeline", "PipelineFn::name", "serialized pipeline"])
prop("C16", "No empty token survives any language's pipeline",
     "For every built-in language and every token a tokenizer can hand over, including empty tokens and tokens of punctuation or white space only, the pipeline never returns an empty token.",
     ["inputs"], "every language and every token",
     "fixtures contain few tokens that become empty and none in most languages",
     ["src/lang/*.rs", CM, EN], [("functions return None instead of an empty string, or the stop-word list contains the empty string", CM + ", src/lang/*.rs")], ["Language::make_pipeline", "Pipeline::run"])
prop("C17", "Every listed stop word is one the filter can meet",
     "Every non-empty entry of a language's stop-word list is in the form that a word of the text has when it reaches the filter (lower case, no white space or hyphen inside, not shortened by the language's trimmer), so that the listed word is in fact dropped when it occurs in a text.",
     ["inputs"], "every entry of every list",
     "fixture texts contain a small part of the lists",
     ["src/lang/*.rs"], [("tables of stop words, trimmer character classes, tokenizer", "src/lang/*.rs")], ["Language::make_pipeline", "Pipeline::run"])
prop("C18", "White-space tokenizer yields exactly the lower-cased words",
     "The shared tokenizer cuts the text at every white-space character and every hyphen-minus and at nothing else, drops empty pieces only, lower-cases each piece (full Unicode lower-casing) and returns them in text order. Every language that documents white-space tokenization uses it.",
     ["inputs"], "every text",
     "tests use four ASCII sentences",
     [MOD], [("split by predicate, filter, lower-case, collect", MOD + " tokenize_whitespace")], ["lang::tokenize_whitespace", "Language::tokenize"])
prop("C19", "Stop-word filter and trimmers alter nothing beyond their contract",
     "The stop-word filter drops a token exactly when it equals a listed word and otherwise passes it on unchanged. A trimmer only removes characters at the two ends of the token, exactly the longest runs of characters outside the language's word characters (its script's word-character class; for English the ASCII letters, digits and the underscore), and a token of which nothing is left does not pass the pipeline.",
     ["inputs"], "every token, list and character class",
     "tests try a few tokens on the English and Japanese trimmers",
     [CM, EN], [("set membership", CM + " StopWordFilter"), ("anchored negated character class", CM + " RegexTrimmer"), ("trim_matches", EN + " trimmer")], ["PipelineFn::filter"])
prop("C20", "Arabic normalization treats every occurrence, as the bundled JavaScript",
     "The Arabic pipeline deletes every diacritic and elongation character of a token and turns every variant of alef into plain alef, for the same character sets as the bundled js/lunr.ar.js, wherever and however often they occur in the token.",
     ["inputs"], "every token",
     "the fixture text has few words in which a character of one class occurs twice",
     ["src/lang/ar.rs", "js/lunr.ar.js"], [("replacement of character classes", "src/lang/ar.rs Stemmer::filter")], ["Arabic::make_pipeline", "PipelineFn::filter"])
prop("C21", "English stemming never panics and always yields valid text",
     "Stemming any token with the English pipeline returns a token: no arithmetic underflow, no out-of-range access and no cut inside a multi-byte character, whatever the token's length, letters and non-ASCII content. The result is never empty for a token of more than two bytes.",
     ["inputs"], "every token",
     "panics on single words were found after release (\"ion\", \"eing\", a doubled continuation byte); tests sweep prefixes and suffixes, not all words",
     [EN], [("guards on k and j, suffixes are ASCII, buffer never shrinks", EN + " PorterStemmer")], ["English::make_pipeline", "PipelineFn::filter"],
     [("k", "length of the current stem", EN), ("j", "start of the last matched suffix", EN)])
prop("C22", "English suffix rules are those of the stemmer in elasticlunr.js",
     "In the steps that map double suffixes to single ones, that treat -ic-, -full, -ness and the like, and that delete residual suffixes, a word ending in one of the algorithm's suffixes is rewritten exactly as the published table says, and only when the part before the suffix has the required measure (more than 0, more than 0, more than 1). Words ending in none of them pass these steps unchanged.",
     ["inputs"], "every suffix of the tables, every word",
     "test words reach a part of the table entries and thresholds",
     [EN], [("dispatch on a letter, then suffix tests in order", EN + " step2/step3/step4")], ["English::make_pipeline", "PipelineFn::filter"])
prop("C23", "The serialized index has exactly elasticlunr.js 0.9.5's schema",
     "Every serialized index is an object with exactly the keys fields, pipeline, ref, version, index, documentStore and lang; each inverted index is an object with the key root; each node has docs, df and one key per child character; each document entry has tf; the store has save, docs, docInfo and length. Each key carries the value it names, the version is always \"0.9.5\", and custom tokenizers are never emitted.",
     ["inputs", "configurations"], "every index that can be built, in both output formats",
     "fixtures compare two indices whose values often coincide, in one format",
     [LIB, II, DS], [("derived serializers with renames, hand-written child map", LIB + ", " + II + ", " + DS)], ["Index::to_json", "Index::to_json_pretty", "Serialize for Index"])
prop("C24", "Writers and readers of the serialized types agree",
     "For every type that the crate can both serialize and deserialize, the reader accepts the shape and every key that the writer emits and requires none that the writer can leave out, so that a serialized value can be read back, and the value read equals the one written (boxed functions, which JSON cannot hold, and languages the crate does not provide excepted).",
     ["inputs"], "every value of every serializable type",
     "no test deserializes anything",
     [LIB, II, DS, PL, "src/config.rs"], [("derived Serialize/Deserialize pairs", "all modules")], ["Deserialize impls"])
prop("C25", "Search options serialize to the keys elasticlunr.js reads",
     "A search configuration serializes to the keys bool, expand and fields, each field's options to boost, bool and expand, with an option left out exactly when it is unset, and the boolean model to \"OR\" or \"AND\" according to its value; the default model is OR and expansion is off.",
     ["inputs"], "every configuration value",
     "two fixed configurations are tested",
     ["src/config.rs"], [("derived serializers", "src/config.rs")], ["Serialize for SearchOptions"])
prop("C26", "Serializing an index cannot fail",
     "Turning an index into JSON, compact or pretty, succeeds for every index: no map in it has a key that is not a string or character, and no serializer of the crate raises an error of its own or announces a wrong number of entries.",
     ["inputs"], "every index",
     "the fixtures serialize two indices",
     [LIB, II, PL], [("string and char keys only, errors only propagated", LIB + ", " + II + ", " + PL)], ["Index::to_json", "Index::to_json_pretty"])
prop("C27", "The index is a deterministic function of the calls that built it",
     "Two indices built by the same calls serialize to the same text: nothing in the crate reads time, environment, randomness, files or mutable global state, or lets the iteration order of a hash-based collection or an address influence a result, and no call writes to anything but its own index.",
     ["inputs", "histories", "configurations"], "every build of an index, in every process",
     "hash iteration order and ambient state vary between processes, a test run sees one",
     ["src/**/*.rs"], [("ordered maps everywhere; hash sets only queried for membership", "src/**/*.rs")], ["serialized index"])
prop("C28", "Stack use does not grow with the length of a token",
     "No operation of the crate recurses to a depth that depends on the text being indexed: adding, looking up, removing, stemming, serializing or dropping very long tokens does not exhaust the stack.",
     ["inputs"], "every token length",
     "tests use short tokens",
     [II, EN], [("iterative traversal", II), ("no recursion in the stemmer", EN)], ["Index::add_doc", "InvertedIndex", "Index::to_json"])
prop("C29", "Indexing panics only in the two documented ways",
     "Building an index, adding documents and running pipelines of the white-space tokenized languages panics only when a field name is added twice or when a document has more values than the index has fields; no text, reference, number of documents or order of calls causes any other panic.",
     ["inputs", "histories"], "every text, reference and call sequence",
     "each panic site needs its own input",
     [LIB, II, DS, CM, PL], [("invariants between fields, tokenizers and index map; counters guarded by membership", LIB + ", " + DS + ", " + II)], ["public API"])
prop("C30", "Index internals cannot be altered except through the public operations",
     "Code outside the crate can neither construct nor modify the nodes and counters of an inverted index, nor replace an index's fields, pipeline, language, per-field indices or store after it is built: the only ways in are the documented operations, and shared references give no write access.",
     ["programs"], "every program using the crate",
     "a test exercises one program; this is about programs that must not compile",
     [LIB, II], [("private fields and types, no interior mutability, no mutable references handed out", LIB + ", " + II)], ["public types and signatures"])
prop("C31", "English stems equal those of elasticlunr.js for every word",
     "For every word, the English pipeline yields the same stem as elasticlunr.js 0.9.5, so that a search in the browser finds what was indexed.",
     ["inputs"], "every word", "fixtures cover one text", [EN], [("port of the Porter stemmer", EN)], ["PipelineFn::filter"])
prop("C32", "Token frequency data survive a round trip through JSON unchanged",
     "Reading a serialized inverted index back yields an index that answers every lookup like the original, including every term frequency bit for bit.",
     ["inputs", "histories"], "every inverted index", "no test reads an index back", [II], [("serde flatten of children", II)], ["InvertedIndex"])
prop("C33", "Indexing time grows about linearly with the text",
     "The time to add a document grows no faster than about linearly (up to logarithmic factors) with the length of its text.",
     ["inputs"], "every text", "tests do not measure time", [LIB, II, EN], [("one pass per token", LIB)], ["Index::add_doc"])
prop("C34", "English stemming of plurals, -ed, -ing, y and final e follows the algorithm",
     "A word of at most two bytes is its own stem. For longer words the steps that take off plurals, -ed and -ing (with the repairs that follow: -at, -bl, -iz get an e, double letters other than l, s, z lose one, short stems get an e), turn a final y into i, and take off a final e or one of two l's, rewrite the word exactly as the algorithm documented in the source says, under its conditions on letters, consonants, vowels and the measure; all steps run once each, in the order 1ab, 1c, 2, 3, 4, 5.",
     ["inputs"], "every word",
     "test words reach a part of the rules and exceptions; a condition that is off by one letter or one measure shows only on particular words",
     [EN], [("suffix tests, measure, vowel and consonant helpers", EN + " step1ab/step1c/step5, cvc, double_consonant, has_vowel"), ("sequence of steps", EN + " get")], ["English::make_pipeline", "PipelineFn::filter"])
prop("C35", "Stemmers hand on the algorithm's own result",
     "In every language whose stemming comes from the Snowball library, the stemmer gives each token to the library as it is and yields exactly the stem the library returns, whatever the token's length, letters and digits; a token is dropped only when its stem is empty. The stemmers of Chinese, Japanese and Korean, which have no algorithm, return every token unchanged.",
     ["inputs", "configurations"], "every token, every language",
     "fixtures compare the tokens of one short text per language; a token treated apart for its length or a character in it is not among them",
     ["src/lang/common.rs", "src/lang/ko.rs", "src/lang/ja.rs", "src/lang/zh.rs"], [("one call of the library, its result returned", "src/lang/common.rs RustStemmer::filter"), ("identity", "src/lang/ko.rs stemmer, src/lang/ja.rs stemmer, src/lang/zh.rs stemmer")], ["Language::make_pipeline", "PipelineFn::filter"])
prop("C36", "Chinese and Japanese tokens are the segmenter's words, verbatim",
     "The Chinese tokenizer returns exactly the words that jieba's search segmentation (without the hidden Markov model) finds in the text, each verbatim and in order. The Japanese tokenizer returns, verbatim and in order, exactly the words that lindera finds in the text, except those whose part of speech (the first detail) is a particle, an auxiliary verb, a symbol or unknown; a word without details is kept.",
     ["inputs"], "every text, every result of the segmenter",
     "fixtures hold one text per language; most parts of speech, words without details and repeated words do not occur in the tests' tokens",
     ["src/lang/zh.rs", "src/lang/ja.rs"], [("map over the segmenter's words", "src/lang/zh.rs Chinese::tokenize"), ("filter on the first detail", "src/lang/ja.rs Japanese::tokenize")], ["Language::tokenize"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
