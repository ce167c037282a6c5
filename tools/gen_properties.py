#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
EV='src/evaluate/evaluation.rs'; LT='src/evaluate/lookup_table.rs'; UT='src/evaluate/utils.rs'
ME='src/evaluate/meta.rs'; EL='src/evaluate/eval.rs'; CL='src/evaluate/class.rs'; HR='src/evaluate/hand_rank.rs'
MO='src/evaluate/mod.rs'; CA='src/card/mod.rs'; RA='src/card/rank.rs'; SU='src/card/suit.rs'; MA='src/card/macros.rs'
DE='src/deck.rs'; ER='src/error.rs'; SL='src/evaluate/static_lookup.rs'; CO='src/constants.rs'
JB='examples/jacks-or-better.rs'; RE='examples/poker-repl.rs'; EX='examples/common/mod.rs'

p('C01','Every five-card hand gets the class the rules of poker give it',
  'Evaluating any five distinct cards succeeds and reports exactly the class the rules of poker assign: high card, pair, two pair, three of a kind, straight, flush, full house, four of a kind or straight flush, together with its defining rank or ranks (higher pair first; trips and pair of a full house; highest card of straights and flushes). Straights run from A-2-3-4-5, whose high rank is the five, to T-J-Q-K-A, and never wrap around; a straight flush headed by the ace is the royal flush.',
  ['inputs'],'all 2,598,960 five-card hands, in any card order',
  'The suite evaluates every five-card hand but only counts 7462 distinct results; the class is asserted for about ten hand-picked hands, so any relabelling of classes or ranks, or a swap of two hands, passes.',
  [EV,LT,UT,ME,CA],[('flush table / unsuited table','meaning of each prime-product key',LT)],
  [('flush detection by AND of suit bits, then prime-product lookup',EV),('table construction by enumeration of rank patterns',LT)],
  ['Evaluator::evaluate(..).class()'])
p('C02','Showdowns between five-card hands follow the rules of poker',
  'For any two five-card hands the comparison of their evaluations (better, worse, equal) is the one the rules of poker give: class first, then defining ranks, then every kicker from highest to lowest, the ace counting low only in A-2-3-4-5. Suits never decide, so hands equal in ranks and in being suited or not tie; there are exactly 7462 different strengths.',
  ['inputs'],'all pairs of five-card hands (all 7462 x 7462 pairs of strength classes, and every hand against its class)',
  'Tests compare three pairs of hands and count 7462 distinct ranks; the order of those ranks is never checked against poker rules, so exchanging two ranks or two kickers passes.',
  [LT,HR,ME,EL,EV],[('hand rank','1 (best) .. 7462 (worst)',HR)],
  [('ranks assigned in descending enumeration order per class',LT),('comparison of hand ranks',ME)],
  ['Eval comparison operators and is_better_than / is_worse_than / is_equal_to'])
p('C03','Six or more cards evaluate to their best five-card hand',
  'Evaluating any set of more than five distinct cards (up to the whole deck) gives a result equal in strength and class to the strongest result among all its five-card subsets. Consequently adding cards never makes a hand worse, and every five-card subset is taken into account wherever its cards stand in the input.',
  ['inputs'],'all sets of 6..52 distinct cards, in any order',
  'Ten six-card and ten seven-card hands are tested, and only their class; hands of eight or more cards are never evaluated, so a skipped combination or a wrong maximum is only seen by luck.',
  [EV,UT,EL],[('running maximum and combination indices','best result so far; next 5-subset',EV)],
  [('iteration over all 5-combinations keeping the maximum',EV),('Combinations iterator',UT)],
  ['Evaluator::evaluate with 6..52 cards'])
p('C04','An evaluation depends only on the set of cards',
  'Evaluating the same cards gives the same result whatever their order, whatever container holds them (array, slice, vector, box; owned or borrowed) and whatever was evaluated before, successfully or not, on the same evaluator or another. In every sequence of calls each call returns what it would have returned as the first one; this includes calls made while another is in progress (by the code of the caller\'s own container) and calls after one whose container failed.',
  ['inputs','histories'],'all orders of all hands; all sequences of evaluations, including failed ones',
  'Each test hand is written in one order and evaluated once; no test replays a hand after other calls or compares orders.',
  [EV,UT,MO],[('evaluator','immutable lookup tables shared by all calls',MO)],
  [('commutative keys (AND/OR of bits, product of primes)',EV),('no mutable state in the evaluator',MO)],
  ['Evaluator::evaluate'])
p('C05','Bad hands are rejected with the right error and never panic',
  'Evaluating any slice of cards, of any length including zero and more than fifty-two, returns without panicking. If any card occurs more than once the result is the not-unique error carrying the whole input in its original order, whatever its length; otherwise, with fewer than five cards it is the hand-size error carrying their number; otherwise it is a success.',
  ['inputs'],'all finite sequences of cards, with any repetitions',
  'Tests try two short hands and one duplicate of adjacent five; positions, suits, several duplicates, empty and over-long inputs are not tried.',
  [EV,UT,ER],[('seen-card bit set','cards met so far',UT)],
  [('uniqueness test by 64-bit set',UT),('dispatch on length',EV)],
  ['Evaluator::evaluate Err values'])
p('C06','All ways of comparing evaluations agree, and best and worst bound them',
  'For any two evaluations the operators <, <=, ==, !=, >=, >, the total and partial comparison, max and min, hashing, and the better / worse / equal methods tell one consistent story of a total order in which equal means equal strength. No evaluation is better than the BEST constant or worse than the WORST constant; these equal the royal flush and the weakest seven-high (7-5-4-3-2 unsuited).',
  ['inputs'],'all pairs (and triples through ranking) of the 7462 strengths and the constants',
  'Tests compare four evaluations using three methods; operators, hashing, max/min and almost all pairs are untested.',
  [ME,EL,HR],[('hand rank','integer strength carried by each evaluation',HR)],
  [('hand-written Ord, PartialOrd, PartialEq, Hash',ME),('const comparison methods',EL)],
  ['Eval operators, Eval::BEST, Eval::WORST'])
p('C07','Class predicates, class values and strength order are consistent',
  'For every evaluation exactly one of the nine class predicates is true and it is the one of the reported class; the royal flush predicate is true exactly for straight flushes headed by the ace. Class values are ordered by class strength and then by defining ranks, and whenever the class of one evaluation is greater than that of another, the first is the better evaluation.',
  ['inputs'],'all 7462 strengths and all pairs of them; every class value a user can construct',
  'Predicates are asserted for the matching class only on about thirty hands (never that the other eight are false); class order is tested on two pairs.',
  [ME,EL,CL],[('class','variant and defining ranks of an evaluation',CL)],
  [('predicates by pattern matching',ME),('derived ordering of the class enumeration',CL)],
  ['Eval::is_*, Eval::class, EvalClass ordering'])
p('C08','Evaluations print the proper name of the hand',
  'The text of an evaluation and of its class is the English name of that hand with its defining ranks: "High card, ace", "Pair, sevens", "Two pair, kings and queens", "Three of a kind, sixes", "Straight, five-high", "Flush, jack-high", "Full house, jacks over fours", "Four of a kind, nines", "Straight flush, ten-high" or "Royal flush". This holds for every rank in every position, and the text of an evaluation is always the text of its class.',
  ['inputs'],'all classes with all ranks; all 7462 evaluations',
  'Only a few strings ("Royal flush", "Pair, sevens", "Full house, jacks over fours", "High card, seven") are asserted.',
  [CL,RA,EL,ME],[],[('formatting by class',CL),('rank names, singular and plural',RA)],
  ['Display of Eval and EvalClass'])
p('C09','A card is exactly its rank and suit',
  'A card made from a rank and a suit reports that rank and suit; the fifty-two cards are pairwise different, equality and hashing agree with having the same rank and suit, and each card\'s integer has the documented bit layout (one rank bit, one suit bit, rank number, rank prime). Ranks order from two up to ace, and cards order by rank alone, consistently in every comparison form.',
  ['inputs'],'all 52 cards and all 52 x 52 pairs; all ranks and suits',
  'Tests check that integers differ and counts per suit and rank; the layout is asserted for one card, and ordering, equality and hashing of cards are untested.',
  [CA,RA,SU,CO],[('unique integer','bit-coded card',CA)],
  [('bit packing and unpacking',CA),('rank and suit integer codes',RA)],
  ['Card::new/rank/suit/unique_integer, Ord, Eq, Hash of Card, Rank, Suit'])
p('C10','Card text round-trips, and only the 52 card names parse',
  'Every card\'s two-character text parses back to that card, by string and by character pair, and its rank and suit characters convert back to its rank and suit; printed forms show that rank character and suit symbol. Any string other than the fifty-two names (one of 23456789TJQKA followed by one of chsd, case-sensitive, nothing before or after), and any other character or character pair, is refused.',
  ['inputs'],'all strings (any length, any Unicode); all pairs of characters',
  'The 52 names are parsed; refusals are tried on three strings. Lower-case ranks, look-alike or multi-byte characters and surrounding space are not tried.',
  [CA,RA,SU],[],[('exactly-two-characters match',CA),('character tables',RA)],
  ['str::parse::<Card>, Card::try_from_chars, TryFrom<char>, Display, as_char'])
p('C11','A refused card text reports precisely what was wrong with it',
  'A refused string yields the length error when it does not have exactly two characters, otherwise the rank error when its first character is no rank, otherwise the suit error; the error carries the original string and the offending character. Character pairs report rank before suit, carrying the offending character; the message quotes the input, and gives the number of characters received or the offending character and the expected set.',
  ['inputs'],'all strings and all pairs of characters',
  'Six strings are tried; none is multi-byte, none has both characters wrong, none is empty.',
  [CA,ER],[],[('FromStr and try_from_chars error mapping',CA),('Display of ParseCardError',ER)],
  ['ParseCardError values and their Display'])
p('C12','Batch parsing yields one result per input, in order, lazily',
  'Parsing a sequence of strings yields exactly one result per string, each the result of parsing that string alone, in order, without stopping at failures, taking each string from the source only when its result is asked for (endless sources included); size hints are right, and exact when those of the source are. Collecting it returns all cards in order if all parse, and otherwise the error of the first failing string.',
  ['inputs','histories'],'all sequences of strings; all interleavings of taking, skipping, asking the size and collecting',
  'Only whole, valid batches are collected; failures inside a batch, sizes, laziness and partial consumption are not tested.',
  [CA,MA],[('remaining inputs','strings not yet consumed',CA)],
  [('ParseToIter delegation',CA)],
  ['Card::parse_to_iter, ParseToIter iterator methods, try_collect'])
p('C13','A generated deck contains each card exactly once, always in the same order',
  'Generating a deck yields each of the fifty-two cards exactly once and then ends. Every generated deck yields the same sequence, however many decks are being consumed at the same time and however they are consumed (one by one, skipping, counting, collecting).',
  ['inputs','histories'],'all ways of consuming any number of deck iterators',
  'The deck is counted and checked for duplicates when collected whole, once.',
  [DE],[('deck iterator','cards not yet yielded',DE)],
  [('cartesian product of ranks and suits',DE)],
  ['deck::generate'])
p('C14','Shuffling permutes the deck, reproducibly and without stuck cards',
  'For every random generator a shuffled deck holds each of the fifty-two cards exactly once, and generators in the same state give the same deck. Every card can come out at every position and no order between two cards is favoured, both for a supplied generator and for the default one; separate shuffles from one generator differ.',
  ['inputs','histories'],'all generators and seeds; all sequences of shuffles',
  'One shuffled deck is counted; its contents, order and dependence on the generator are not looked at.',
  [DE],[('random generator','source of the permutation',DE)],
  [('in-place shuffle of a freshly generated deck',DE)],
  ['deck::shuffled, deck::shuffled_with'])
p('C15','Evaluation errors print which cards are repeated, or the size received',
  'The message of the not-unique error lists every card that occurs more than once, each exactly once, separated by single spaces and in two-character form, and no other card. The message of the hand-size error gives the number of cards received; both begin with their fixed explanation.',
  ['inputs'],'all multisets of cards, any number of repetitions; all sizes',
  'One message with one duplicated card and one size are tested.',
  [ER],[],[('counting duplicates',ER)],['Display of EvalError'])
p('C16','The construction macros build exactly the cards written, in order',
  'The card macro in each of its forms builds the card it names; the cards macro yields the listed cards in the written order for each of its forms (rank-suit pairs, "of" pairs, list of strings, one whitespace-separated string), as an array or as parse results. The boxing macro concatenates any number (two or more) of slices, keeping all cards in order, repetitions included.',
  ['inputs','programs'],'all ranks and suits in each macro form; all lists and slices',
  'The macros are used with few fixed cards; one three-slice boxing is tested.',
  [MA],[],[('macro expansion to constructors and parsing',MA)],['card!, cards!, box_cards!'])
p('C17','Threads sharing an evaluator get the single-threaded results',
  'An evaluator can be shared by any number of threads without locking; each concurrent evaluation returns exactly what the same call returns alone, for successes and errors alike. Creating or cloning evaluators, shuffling, and comparing results in other threads at the same time does not change any result, nor does the thread being about to end.',
  ['schedules','inputs'],'all interleavings of evaluations by any number of threads',
  'Only a doc example uses threads, on random hands, and asserts nothing about the results.',
  [MO,EV],[('shared evaluator','read-only tables',MO)],[('immutability: evaluation only borrows',MO)],
  ['Evaluator shared through references or Arc'])
p('C18','Jacks or Better always plays with one intact deck',
  'In the video-poker example every deal shows five different cards; after a swap exactly the chosen positions may change, kept cards stay where they are, and the new hand again has five different cards. The hand names shown before and after the swap are those of the cards shown, and the better/worse remark follows the two hand classes; over any number of rounds no card is lost or duplicated.',
  ['inputs','histories','schedules'],'all sequences of rounds, wagers and swaps; all shuffles',
  'The example has no tests at all; it is only compiled.',
  [JB,EX],[('deck and hand','partition of the 52 cards between rounds',JB)],
  [('swap through the deck',JB),('collecting the hand back',JB)],
  ['standard output of the example program'])
p('C19','Jacks or Better pays by the payout table and keeps credits exactly',
  'A round takes the wager from the credits and, for a paying final hand, returns the wager plus the winnings: jacks or better 1, two pair 2, three of a kind 3, straight 4, flush 6, full house 9, four of a kind 25, straight flush 50, royal flush 250 times the wager, the royal paying 4000 at the maximum wager of 5; anything else pays nothing. Play starts at 100 credits, credits never go negative, and the game ends exactly when they reach zero or the player leaves.',
  ['inputs','histories'],'all hands, wagers and credit histories',
  'The example has no tests; rare hands (royal flush at maximum wager) almost never occur in manual play.',
  [JB],[('credits','player balance',JB)],[('payout function',JB),('round loop',JB)],
  ['standard output of the example program'])
p('C20','Jacks or Better refuses bad input without changing the game',
  'Only whole-number wagers from 1 to the smaller of 5 and the credits are accepted, and only swap lists of at most five different card numbers from 1 to 5 (or none); any other line of text is refused with the message for its reason and asked again, with credits and cards unchanged. "quit" or end of input leaves the game at either prompt.',
  ['inputs','histories'],'all input lines at both prompts in all game states',
  'The example has no tests.',
  [JB,EX],[('prompt state','waiting for wager or swaps',JB)],[('validation of wagers',JB),('validation of swaps',JB)],
  ['standard input and output of the example program'])
p('C21','The REPL answers every line by itself and keeps going',
  'For each line of text typed the evaluation prompt prints exactly one answer: the name of the hand if the line lists five or more different valid cards, otherwise the error for the first invalid card, or for repeated or too few cards; "help" prints the help and "quit" or end of input ends it. No line makes it stop, crash or answer differently because of earlier lines.',
  ['inputs','histories'],'all sequences of input lines',
  'The example has no tests.',
  [RE,EX,MA],[('prompt loop','independent of history',RE)],[('read, parse, evaluate, print loop',RE)],
  ['standard input and output of the example program'])
p('C22','Every evaluator is complete and interchangeable',
  'However an evaluator is obtained (new, default, or a clone of any of these, in any thread), it evaluates every hand and gives the same result as any other evaluator. All evaluators compare equal, and a clone stays valid after its original is gone.',
  ['inputs','histories'],'all ways of obtaining evaluators; all hands',
  'Tests only use one shared evaluator made by new().',
  [MO,LT],[('evaluator tables','complete after construction',LT)],[('construction and derived traits',MO)],
  ['Evaluator::new, Default, Clone, PartialEq'])
p('C23','A whole table played through the library has the right winners',
  'When a shuffled deck is dealt to players and a board, hands and board are joined and evaluated, and results are compared (by maximum, sorting, or pairwise), the set of winners is exactly the players holding the strongest poker hand under the rules, with ties split. This holds for any number of players the deck allows and for any board size from three to five cards.',
  ['inputs','histories'],'all deals, numbers of players and boards',
  'No test goes end to end; comparison of hands sharing board cards (kicker play, board plays) is untested.',
  [EV,LT,MA,DE,ME],[],[('deck, boxing, evaluation and comparison together',MO)],
  ['deck + box_cards! + evaluate + comparison'])
p('C24','Every build configuration evaluates alike',
  'With the static lookup feature and its table of the 7462 strengths, the free evaluation function returns for every input the same result or error as an evaluator; building without the random feature, or with or without the checks of a debug build, changes no result.',
  ['inputs','configurations'],'all hands and erroneous inputs; feature sets: default, none, static lookup',
  'The feature cannot be built in the test environment, so its tests never run; the no-rand build is not tested.',
  [SL,EV,'build.rs'],[('static tables','downloaded at build time',SL)],[('shared generic evaluation over two table back ends',EV)],
  ['poker::evaluate::static_lookup::evaluate'])
p('C25','Use leaves nothing behind',
  'Whatever a program asks of the library, and however often, nothing stays behind once the calls are over and their results dropped: the memory still allocated, the running threads and the open files do not grow with the number of calls, and nothing is ever written to the standard output or error. Apart from a fixed amount that may be set up when a kind of call is first made, this holds for evaluating and refusing hands of every size, parsing, batches read to the end or abandoned, decks and shuffles, the macros, evaluators made, cloned and dropped, comparing and displaying; for calls in short-lived threads; and for calls whose container, source, generator or writer fails half-way.',
  ['inputs','histories'],'all sequences of calls, from any number of threads, with any of the user\'s own code failing',
  'Tests make a few calls and look only at results; a cache that never forgets, tables that are leaked or text printed on a rare path give the right results.',
  [EV,MO,LT,CA,MA,DE,ER],[('evaluator tables','the only thing an evaluator owns',MO)],
  [('ownership: results own their cards and texts, evaluators their tables',MO)],
  ['the process: allocator, threads, open files, standard output and error'])
p('C26','Answers do not depend on the surroundings of the program',
  'The same calls with the same arguments answer the same in every program, whatever surrounds it: variables of the environment, language and time zone, the working directory and files, the date and the clock, arguments, streams, user, limits, the thread that calls, and whether a panic is unwinding. While a call lasts the library consults none of these, nor the network; only shuffling without a generator asks the system for anything, and that is randomness (from whatever source of it the system offers). This holds for evaluating and refusing hands of every size, comparing and naming, parsing one text or many, decks, shuffles with a supplied generator, the macros, and making, cloning and comparing evaluators. The order in which a message lists repeated cards is left open.',
  ['inputs','configurations'],'all calls, in all surroundings a program can have',
  'Tests run in one surrounding, always the same; an answer that depends on a variable, on the time left or on the state of the thread is right there.',
  [EV,CA,DE,ER,SU],[('no state outside the values','evaluators, decks and results are plain values',MO)],
  [('evaluation as a function of the tables and the cards',EV)],
  ['the process: environment, clock, files, identity, network'])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
if __name__ == '__main__': print(len(P))
