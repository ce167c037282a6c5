#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
COMMON = "Trusted: TLC, the rules as written in spec/Rules.tla, the harness that calls the public API and reports what it saw. "
T = {
 "C01": ("TLA+ ladder of all hand classes (TLC) exported and compared with every hand evaluated; generated behaviours replayed, recorded sessions validated by TLC",
         "Exhaustive over all 2,598,960 five-card hands (one card order each, every order sampled); the class expected comes from the specification's ladder, not from the code."),
 "C02": ("TLA+ ladder of 7462 strengths (TLC, exhaustive walk) compared with the code's order over all pairs of strengths; behaviours replayed, sessions validated by TLC",
         "Exhaustive over hands (each against its strength) and over all pairs of the 7462 strengths."),
 "C03": ("TLA+ model of best-of-N (TLC) and exhaustive/sampled comparison with the specification's best five; behaviours replayed, sessions validated",
         "All six-card and a large exhaustive or sampled part of the seven-card hands, directed sampling above, up to the whole deck; the thorough tier takes all seven-card hands."),
 "C04": ("recorded call histories validated by TLC against a function-of-the-set specification; exhaustive orders and containers",
         "Relative property: answers are compared with each other, not with the rules. All orders of five cards for every strength, sampled orders above, histories of thousands of calls."),
 "C05": ("TLA+ library machine (PokerLib): behaviours generated by TLC and replayed, recorded sessions validated, duplicate positions enumerated",
         "Every pair of positions of a repeated card up to 53 and beyond, every size, every multiset shape up to a bound; lengths above are sampled."),
 "C06": ("TLA+ library machine: every pair of the 7462 strengths in every operator against the ladder; behaviours replayed, sessions validated",
         "All pairs of strengths for every comparison form."),
 "C07": ("TLA+ class values (ClassValues, TLC) exported and compared with the code; behaviours replayed, sessions validated",
         "All hands for the predicates, all pairs of class values for the order."),
 "C08": ("TLA+ hand names exported from the ladder and compared with the code's text; behaviours replayed, sessions validated",
         "All 7462 strengths and all class values, several formatting paths."),
 "C09": ("TLA+ card table (TLC) exported and compared with all cards in every constructor and comparison; behaviours replayed, sessions validated", "Exhaustive over cards, ranks, suits and their pairs."),
 "C10": ("TLA+ parser table exported and replayed; every character and character pair of a class compared; behaviours replayed, sessions validated",
         "All single characters of Unicode, all pairs with one valid side, all short texts over an alphabet; longer texts sampled."),
 "C11": ("TLA+ parser table exported and replayed; behaviours replayed, sessions validated by TLC", "As C10, for the error values and their messages."),
 "C12": ("TLA+ model of batch parsing (Batch, TLC) and PokerLib iterator histories replayed and recorded", "All batches of a small alphabet in the model; generated and recorded histories of interleaved iterators in the code."),
 "C13": ("PokerLib deck iterators: recorded sessions validated by TLC; consumption patterns enumerated in the code", "Every consumption prefix with every adaptor; interleavings sampled."),
 "C14": ("TLA+ model of shuffling (TLC) and recorded shuffles validated; statistics over many shuffles",
         "Permutation and reproducibility per shuffle; fairness is statistical: fixed seeds, thresholds far beyond chance."),
 "C15": ("PokerLib error messages: behaviours replayed, sessions validated; multisets enumerated", "All single, pair and triple sets of repeated cards, larger ones sampled; any order of the list is accepted."),
 "C16": ("macro forms generated from the TLA+ card table and compiled; lists and slices recorded and validated by TLC", "Every card in every form; lists and numbers of slices sampled."),
 "C17": ("TLA+ model of threads sharing evaluators (TLC, all interleavings, negative control) and concurrent histories recorded and validated",
         "The model covers all interleavings of a small instance; the code is sampled under real threads, and the compiler checks Send and Sync."),
 "C18": ("TLA+ model of the game (Jacks, TLC) and transcripts of the real program validated by TLC", "Real games of several playing styles with reproducible entropy; every shown hand, name and remark is checked. Trusts the LD_PRELOAD entropy stand-in."),
 "C19": ("TLA+ model of the game (Jacks, TLC) and transcripts of the real program validated by TLC", "As C18, for credits and winnings; scripted games reach every paying hand at every wager while the code's shuffles stay as they are."),
 "C20": ("TLA+ model of the game (Jacks, TLC) and transcripts of the real program validated by TLC", "As C18, with refused lines of every kind at both prompts. Lines of valid text only."),
 "C21": ("TLA+ model of the prompt (Repl, TLC) and sessions of the real program validated by TLC", "Sessions of hundreds of generated lines; every shown line is accounted for. Lines of valid text only."),
 "C22": ("TLA+ model of the table construction (LookupBuild, TLC) and histories over evaluators of every provenance validated; behaviours replayed",
         "Every hand with every kind of evaluator; relative: evaluators are compared with each other."),
 "C23": ("TLA+ model of showdowns (TLC) generated as whole tables and replayed; recorded tables validated by TLC", "Model exhaustive for small decks; tables of every size sampled in the code with several ways of picking the winners."),
 "C24": ("TLA+ model of the table construction (TLC); builds with other features compared call by call, histories validated",
         "All five-card hands and a fixed list of calls in four builds. The static table cannot be downloaded here; a stand-in writes it from the specification's ladder in the same layout."),
 "C25": ("TLA+ model of what use leaves behind (Held, TLC, negative control); looks at the process between millions of calls validated by TLC",
         "Nineteen kinds of calls, each by itself and mixed, in two builds; 64 KB of growth in memory are allowed over the whole run, no thread, file or text. Memory obtained without the allocator is not seen."),
 "C26": ("TLA+ model of programs in all surroundings (Surroundings, TLC, negative control); the same script run in 22 surroundings and watched from inside, validated by TLC as one history",
         "Thirteen kinds of calls, a million each time, in 22 surroundings; the functions of the C library through which Rust's standard library asks are watched, the environment's memory too. System calls made directly, and what was read before main, are not seen but for different answers."),
}
SETUP = "python3 -c \"import shutil,sys; sys.exit(0 if all(shutil.which(x) for x in ('java','cargo','gcc')) else 1)\""
m = {"version": 1, "setup_cmd": SETUP,
     "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
                 "technique": t, "level": "model_checking", "level_note": COMMON + n} for k, (t, n) in T.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo. TLA+ with TLC; see DESIGN.md. known-findings.txt lists the two repaired defects."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
