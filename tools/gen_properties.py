#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
H="include/mimic++/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[H+f for f in files],"mechanism":[{"name":n,"where":H+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":H+w} for n,m,w in state]
    a["observe_at"]=observe or ["installed reporter (report_* callbacks)","return value / exception of the mock call"]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
NB="The Expectation/Mock/Sequence/Matcher unit tests of the repository need trompeloeil and are not even built here; the examples exercise a handful of fixed scenarios. "
p("C01","Every call gets exactly one, correct verdict",
 "For every call on a mock exactly one outcome is reported: a full match if at least one live expectation accepts the call and is applicable, otherwise an inapplicable-match failure if at least one live expectation accepts it but is saturated or not its sequence's turn, otherwise a no-match failure. A full match consumes exactly one expectation and returns to the caller; the failures consume nothing and the call does not return normally. The failure report carries one entry for exactly each expectation of that class (accepting-but-inapplicable ones, respectively all live ones), and a full match carries the consumed one.",
 ["inputs","histories"],"all call arguments, all matcher operands, all numbers of prior calls, over histories of expectation creation, calls and expectation destruction",
 NB+"Only all argument/operand/history combinations together define the classification.",
 ["Expectation.hpp","Reports.hpp","Reporter.hpp"],
 [("classification loop","Expectation.hpp ExpectationCollection::handle_call"),("evaluate_match_report","Reports.hpp")],
 [("m_Expectations","live expectations of the overload group, oldest first","Expectation.hpp")])
p("C02","Newest applicable matching expectation wins (no sequences)",
 "When several live expectations that belong to no sequence fully match a call, the most recently created one is used; older ones are used only when all newer ones do not match or are saturated, also after arbitrary expectations in between have been destroyed.",
 ["inputs","histories"],"all accept/reject patterns, all remaining-count patterns, all interleavings of creation, call and destruction within bounds",
 NB+"The selected expectation depends on the whole history.",
 ["Expectation.hpp","Sequence.hpp"],[("reverse iteration","Expectation.hpp handle_call"),("pick_best_match / has_better_rating","Expectation.hpp, Sequence.hpp")])
p("C03","Call limits are exact",
 "An expectation with limits min and max accepts exactly the first max otherwise-matching calls it is selected for and rejects every further one as inapplicable; without an explicit limit both are one. Its is_satisfied() is true exactly while min <= accepted calls <= max.",
 ["inputs","histories"],"all 0 <= min <= max over the full int range and all call counts within bounds, including the extreme values of int",
 NB+"Boundary values of the int range and long call histories are never sampled.",
 ["ControlPolicy.hpp","Expectation.hpp"],[("ControlPolicy::consume/is_satisfied/state","ControlPolicy.hpp"),("make_control_state","ControlPolicy.hpp")],
 [("m_Count","accepted calls so far","ControlPolicy.hpp")])
p("C04","Unfulfilled expectations are reported exactly once, others never",
 "When an expectation's scope ends, exactly one unfulfilled-expectation report is issued if it was not satisfied (accepted fewer calls than its minimum, or a custom policy is unsatisfied) and none otherwise. The report identifies that expectation (its source location, limits/state text and policy descriptions), and the expectation no longer takes part in any later call.",
 ["inputs","histories"],"all limits, all call counts, all orders of creation, moving and destruction of the scoped expectations within bounds",
 NB+"Needs all count/limit combinations and destruction orders.",
 ["Expectation.hpp","ControlPolicy.hpp"],[("ExpectationCollection::remove","Expectation.hpp"),("ScopedExpectation::~ScopedExpectation","Expectation.hpp")])
p("C05","Limit factories accept exactly the valid limits",
 "times(min,max) throws std::invalid_argument exactly if min<0, max<0 or max<min; times(n), at_least(n) and at_most(n) throw exactly for negative n. Otherwise the resulting expectation has precisely the limits [min,max], [n,n], [n,INT_MAX], [0,n]; once and twice mean [1,1] and [2,2].",
 ["inputs"],"all pairs of int values","The tests sample a few values; the property ranges over all 2^64 pairs.",
 ["ControlPolicy.hpp"],[("TimesConfig","ControlPolicy.hpp"),("expect::times/at_least/at_most/once/twice","ControlPolicy.hpp")],
 observe=["exceptions of the factories","min/max/count in match and state reports"])
p("C06","A sequence admits its expectations only in order",
 "An expectation attached to a sequence can accept a call only if every expectation attached earlier and not yet passed is satisfied, no later expectation of the sequence has already accepted a call, and its own limit is not exhausted; in every other case an otherwise matching call is rejected as inapplicable and changes nothing. This holds for expectations on one or several mocks and also when expectations are attached after calls were already made.",
 ["inputs","histories"],"all limits per element and all call histories (choice of target per call, interleaved with attaching) within bounds",
 NB+"The state space (limits x cursor x counts x call order) is only sampled by fixed examples.",
 ["Sequence.hpp","ControlPolicy.hpp"],[("BasicSequence::is_consumable/consume/set_satisfied/set_saturated","Sequence.hpp"),("ControlPolicy::update_sequence_states","ControlPolicy.hpp")],
 [("m_Entries, m_Cursor","per element progress and current position","Sequence.hpp")])
p("C07","Lazy and greedy sequences choose the documented element",
 "If several expectations of one sequence can accept a call, LazySequence (and the default SequenceT) uses the earliest eligible one, GreedySequence the latest eligible one, for every combination of limits and progress, however many elements lie between. If two expectations share several sequences, the one that most of these sequences prefer is used.",
 ["inputs","histories"],"all limits, all progress states reachable within bounds and all accept patterns",
 NB+"Two snippets show one situation each.",
 ["Sequence.hpp","Expectation.hpp"],[("LazyStrategy/GreedyStrategy","Sequence.hpp"),("has_better_rating, pick_best_match","Sequence.hpp, Expectation.hpp")])
p("C08","Membership in several sequences is a conjunction, without duplicates",
 "An expectation attached to several sequences accepts a call only if it is eligible in each of them, and accepting advances each of them; if it is not eligible in some, the call is rejected as inapplicable, no sequence advances, and the report lists exactly those sequences as inapplicable. Attaching one expectation twice to the same sequence, in one statement or in separate ones, throws std::invalid_argument and leaves all sequences without an additional element.",
 ["inputs","histories"],"all subsets/positions of repeated sequences up to three sequences and all call histories within bounds",
 NB+"Requires all combinations of positions and progress.",
 ["Sequence.hpp","ControlPolicy.hpp","ExpectationBuilder.hpp"],[("sequence::detail::Config (duplicate check, concat)","Sequence.hpp"),("make_control_state, consume","ControlPolicy.hpp")])
p("C09","Unfinished sequences are reported exactly once",
 "When a sequence and all expectations attached to it are gone, exactly one error is reported if some attached expectation that was not skipped legally is unsatisfied, stating how many of how many expectations were satisfied before the first unsatisfied one; otherwise no error is reported.",
 ["inputs","histories"],"all limits and call histories within bounds",
 NB+"Depends on all reachable sequence states.",
 ["Sequence.hpp"],[("BasicSequence::~BasicSequence","Sequence.hpp")])
p("C10","An expectation matches iff all of its requirements accept",
 "An expectation accepts a call if and only if every requirement given for it accepts the call: argument values or matchers passed to expect_call (value compare for plain values, text compare for strings), expect::arg requirements including projections, and custom policies, each applied to the argument at its own position. The number and order of added clauses (requirements, limits, sequences, side effects, finalizer) never drops, duplicates or exchanges one of them.",
 ["inputs"],"all argument values and operands (full integer width), all orders of clauses exercised by the harness family",
 NB+"A dropped or misdirected requirement only shows for argument values that separate it.",
 ["ExpectationBuilder.hpp","ExpectationPolicies.hpp","Expectation.hpp","Mock.hpp"],
 [("BasicExpectationBuilder::operator&& / finalize","ExpectationBuilder.hpp"),("make_arg_policy / make_arg_matcher","ExpectationBuilder.hpp"),("Requirement, ApplyArgsAction","ExpectationPolicies.hpp"),("BasicExpectation::matches","Expectation.hpp")])
p("C11","Comparison, predicate, instance and wildcard matchers are exact",
 "eq, ne, lt, le, gt, ge accept a target exactly when target==, !=, <, <=, >, >= operand holds (target on the left), instance exactly for the very same object, predicate exactly when the predicate returns true, and _ always. Negating a matcher (operator !, once or repeatedly) exactly negates its verdict and swaps its description with the opposite one.",
 ["inputs"],"all target/operand pairs of 8- to 64-bit signed and unsigned types and all negation depths up to three",
 NB+"The Matcher tests are not part of the test run; equality boundaries and extreme values need every pair.",
 ["Matcher.hpp"],[("PredicateMatcher","Matcher.hpp"),("matches::eq/ne/lt/le/gt/ge/predicate/instance","Matcher.hpp"),("WildcardMatcher","Matcher.hpp")],
 observe=["verdict of the matcher","description text"])
p("C12","String matchers decide exactly the textual relation",
 "For every target and pattern, matches::str::eq, starts_with, ends_with and contains accept exactly if the pattern is equal to, a prefix of, a suffix of, or occurs in the target (the empty pattern is contained in everything), for all character types and for std::string, string_view, pointer and array operands. Their case-insensitive forms accept exactly if the relation holds after mapping every char through toupper of the \"C\" locale, bytes >= 0x80 being left alone, without undefined behaviour. Plain strings given as expected argument compare as text.",
 ["inputs"],"all byte contents of target and pattern up to the stated lengths, embedded zero bytes included for string/string_view",
 NB+"Matching strings is a relation over all contents; the tests use a few literals.",
 ["Matcher.hpp","String.hpp"],[("matches::str::*","Matcher.hpp"),("string_case_fold_converter<char>","String.hpp"),("string_traits","String.hpp")],
 observe=["verdict of the matcher"])
p("C13","Range matchers decide exactly the range relation",
 "matches::range::eq accepts exactly element-wise equal ranges of equal length, unordered_eq exactly permutations, is_sorted exactly ascending ranges by the relation, is_empty exactly empty ones, has_size(n) exactly ranges with n elements (for every integral n, negative included), each_element/any_element exactly if all/at least one element satisfy the inner matcher; custom comparators are used for eq, unordered_eq and is_sorted. Operands given as lvalue are left unchanged.",
 ["inputs"],"all element values and all lengths up to the stated bound",
 NB+"The Matcher tests are not run; permutations and boundaries need all contents.",
 ["Matcher.hpp"],[("matches::range::*","Matcher.hpp")],observe=["verdict of the matcher"])
p("C14","Overloads are kept apart by constness, ref-qualifier and parameters",
 "A call is matched only by expectations set up for the overload through which the call was made: parameter types, constness and value category (lvalue/rvalue, or any for unqualified signatures) must agree; expectations of other overloads of the same mock neither match nor are consumed, and the report names the constness and category of the call.",
 ["inputs","histories"],"all pairs of (overload the expectation was made for, overload called) of the supported qualifier sets with all argument values, in both noexcept and non-noexcept form",
 NB+"The cross product of overload pairs is not executed by any running test.",
 ["Mock.hpp","ExpectationPolicies.hpp","Fwd.hpp","Utility.hpp"],[("MockFrontend specialisations","Mock.hpp"),("expectation_policies::Category/Constness","ExpectationPolicies.hpp")])
p("C15","The finalizer's result reaches the caller unchanged",
 "On a full match the caller receives exactly what the finalizer of the selected expectation produces: returns(v) the stored value or reference on every accepted call, returns_result_of the callable's result evaluated once per call, returns_arg<i> and the returns_apply forms the i-th argument or the result of applying the action to exactly the selected arguments in the given order, throws(e) an exception of e's type and value. References stay references to the same object.",
 ["inputs","histories"],"all argument and stored values (full width), all index choices up to three arguments, repeated calls",
 NB+"Fidelity must hold for each value and each index combination.",
 ["ExpectationPolicies.hpp","Expectation.hpp","Mock.hpp"],[("ReturnsResultOf, Throws, ApplyArgsAction, ApplyAllArgsAction","ExpectationPolicies.hpp"),("finally::*","ExpectationPolicies.hpp")],
 observe=["return value, returned address, exception of the mock call"])
p("C16","Side effects run exactly once, in order, only on a match",
 "For every call that is fully matched, each side effect of the selected expectation runs exactly once, in order of attachment, after the match has been reported and before the finalizer; it receives exactly its designated arguments by reference, so that later side effects, the finalizer and (for reference parameters) the caller observe its changes. For calls that are not matched, and for all other expectations, no side effect runs.",
 ["inputs","histories"],"all argument values, accept patterns and call histories within bounds",
 NB+"Ordering and exactly-once are per-history claims.",
 ["ExpectationPolicies.hpp","Expectation.hpp"],[("SideEffectAction","ExpectationPolicies.hpp"),("BasicExpectation::consume","Expectation.hpp"),("handle_call","Expectation.hpp")],
 observe=["trace of reporter callbacks, side effects and finalizers"])
p("C17","An exception while matching never escapes and never matches",
 "If evaluating an expectation against a call throws anything, the exception does not escape, that expectation neither matches nor is consumed nor listed for that call, the exception object is delivered through exactly one unhandled-exception report naming the call and that expectation, and all other expectations are still considered as if the throwing one were absent.",
 ["inputs","fault_sequences","histories"],"all subsets of expectations whose matcher throws, any exception type, all accept patterns, over successive calls",
 NB+"Fault positions are enumerated by no running test.",
 ["Expectation.hpp","Reporter.hpp"],[("make_match_report","Expectation.hpp"),("report_unhandled_exception","Reporter.hpp")])
p("C18","Reports describe the call and the expectations faithfully",
 "A call report lists every argument in order with its type and its printed value as passed by the caller plus return type, source location, constness and category of the call; a match report lists every requirement in order with its own verdict and description, the limits, the number of accepted calls and the sequence situation of the expectation at the time of the call. Reports, their parts and call infos compare equal exactly if all of these parts are equal, and evaluate_match_report yields none, inapplicable or full exactly according to the verdicts and the control state.",
 ["inputs","histories"],"all argument values, verdict combinations and counter values within bounds; for equality all pairs differing in any subset of the fields",
 "The tests compare a few hand-made reports.",
 ["Reports.hpp","Call.hpp","Expectation.hpp"],[("make_call_report, CallReport, MatchReport, ExpectationReport operator==","Reports.hpp"),("evaluate_match_report","Reports.hpp"),("BasicExpectation::matches/report","Expectation.hpp"),("call::Info operator==","Call.hpp")])
p("C19","The times text tells the truth",
 "For every (min, max, accepted) reachable, the textual expectation state says saturated exactly if accepted==max, accepts further matches exactly if min<=accepted<max, and otherwise how many matches are expected (exactly n, or between min and max), with numbers spelled correctly (never/once/twice/n times), and mentions the sequence situation exactly if the expectation is in a sequence, with correct numbers.",
 ["inputs","histories"],"all min<=max and accepted values within the stated ranges, numbers with up to 10 digits",
 "The tests check a few triples.",
 ["Reports.hpp"],[("print_times_state, control_state_printer","Reports.hpp")],observe=["times description in expectation reports","text of match reports"])
p("C20","Printing is total and faithful",
 "print yields for every value the documented text: strings verbatim in quotes, strings of other character types with their prefix and every code unit as exact hexadecimal number, integers in decimal, pointers as 16 digit hexadecimal address, optionals, tuples/pairs and (nested) ranges with every element once, in order, correctly separated; a custom printer takes precedence. It ends for every value (a range whose elements are of its own type, as std::filesystem::path, is not printed element by element), never throws for these types and never reads outside the value.",
 ["inputs"],"all code units and element values, all lengths up to the stated bound, empty cases included",
 "Only a few literals are tested.",
 ["Printer.hpp","String.hpp"],[("detail::Printer specialisations, print overloads","Printer.hpp")],observe=["returned string"])
p("C21","Exactly one active reporter; every outcome is routed to it",
 "All outcomes go to the most recently installed reporter and to no other one; replacing it destroys the former one. The default and the callback based reporters treat no-match, inapplicable match, unfulfilled expectation and error as failure, a full match as success and an unhandled exception as warning, deliver each exactly once with the exception type and data documented, and raise no failure for unfulfilled expectations or errors while an exception is propagating.",
 ["inputs","histories","fault_sequences"],"all sequences of installs and outcomes within bounds, with and without an exception in flight",
 "Adapters are tested in a few scenarios; histories of installs and in-flight exceptions are not.",
 ["Reporter.hpp"],[("get_reporter, install_reporter, BasicReporter, DefaultReporter","Reporter.hpp")])
p("C22","Watched object lifetimes are reported faithfully",
 "A destruct expectation on a watched object is fulfilled exactly when that object - or the object its watcher state was moved into - is destroyed or copy-assigned over; moved-from objects report nothing on destruction, and copies and copy-assigned objects start unwatched. A second destruct expectation for one watched object throws std::logic_error, and a live destruct expectation that ends unmet is reported exactly once.",
 ["inputs","histories"],"all histories of construct, copy, move, assign, expect and destroy over a small pool of objects within bounds",
 "The ObjectWatcher tests run single operations, not all histories.",
 ["ObjectWatcher.hpp"],[("LifetimeWatcher, Watched","ObjectWatcher.hpp")])
p("C23","Watched object relocations are reported faithfully",
 "Every move construction or move assignment from a watched object is reported exactly once as a call on that source object's relocation expectations, which continue at the destination; copying is never reported, and a copy-assigned object drops its relocation state. A relocation that was expected but did not happen is reported unfulfilled.",
 ["inputs","histories"],"all histories of copy, move, assign, expect and destroy over a small pool of objects within bounds",
 "The ObjectWatcher tests run single operations, not all histories.",
 ["ObjectWatcher.hpp"],[("RelocationWatcher, Watched","ObjectWatcher.hpp")])
p("C24","Mocks, expectations and sequences may be moved and destroyed in any order",
 "For every order of moving and destroying mocks, scoped expectations and sequence objects there is no invalid memory access, double release, leak or abort; moving a mock or scoped expectation carries its expectations, counts and obligations along unchanged, and expectations stay effective for the moved-to mock and remain reportable after their mock or sequence object is gone.",
 ["histories","inputs"],"all histories of create, move, call and destroy over small pools within bounds, with throwing and non-throwing reporters",
 "Ownership errors need particular destruction orders that no test enumerates.",
 ["Expectation.hpp","Mock.hpp","Sequence.hpp","ExpectationBuilder.hpp"],[("shared ownership of collections, expectations and sequences","Mock.hpp, Expectation.hpp, Sequence.hpp"),("ScopedExpectation special members","Expectation.hpp")])
p("C25","Interface mocks forward every call transparently",
 "A method generated by MOCK_METHOD, MOCK_OVERLOADED_METHOD and ADD_OVERLOAD, called through the interface, behaves exactly as a direct call of the corresponding mock overload: arguments arrive in order, references keep their identity, rvalues and move-only values are handed over once, the result or exception comes back unchanged, and const/ref/noexcept qualified overloads select the equally qualified mock overload.",
 ["inputs","programs"],"all argument and result values for the interface shapes in the harness (0 to 4 parameters, value/reference/rvalue/move-only, overload sets)",
 NB+"Only one example scenario runs.",
 ["InterfaceMock.hpp","Mock.hpp"],[("MIMICPP_MOCK_METHOD and helper macros","InterfaceMock.hpp")],
 observe=["argument addresses and values in side effects","return values"])
p("C26","Concurrent use of one mock is free of data races and lost expectations",
 "If one thread creates or ends expectations of a mock while another thread calls that mock, or while another thread creates or ends expectations of it, the bookkeeping of the live expectations is accessed without data race: no expectation is lost, duplicated or skipped by a call that overlaps with another thread's creation or removal, and no call uses the expectation store in the middle of a modification. Two threads calling the same mock at the same time, ending an expectation that accepts an overlapping call, and sequences are outside this promise.",
 ["schedules","inputs"],"all interleavings (at lock acquisitions) of two or three threads performing up to three operations each",
 "No test uses threads at all.",
 ["Expectation.hpp"],[("m_ExpectationsMx","Expectation.hpp ExpectationCollection::push/remove/handle_call")],
 observe=["happens-before races on the expectation store","outcomes of the overlapping calls"])
p("C27","Signature traits and overload-set rules are consistent for every signature",
 "The signature and overload traits agree with the language for every function type: adding/removing qualifiers, return and parameter types are exact, and an overload set is accepted exactly if all its signatures can coexist as member functions.",
 ["programs"],"all function types and overload sets",
 "Tests list selected types; the quantifier is over programs (types).",
 ["TypeTraits.hpp"],[("signature_* traits, is_overload_set","TypeTraits.hpp")],observe=["compile-time constants"])
p("C28","Framework adapters translate every outcome to the hosting framework",
 "With the Catch2, doctest, GoogleTest and Boost.Test adapters, which install themselves when they are included, every failure outcome (no match, inapplicable match, unfulfilled expectation, error) fails the running test case exactly once with the text of the report and ends it, unless an exception is already propagating; success and warning outcomes never fail it. Catch2 matchers used as argument matchers accept exactly what their match function accepts.",
 ["configurations","inputs","histories"],"all adapters, all short histories of outcomes with arbitrary arguments, all operands of the matchers",
 "One scenario per adapter is run for three of the adapters.",
 ["adapters/Catch2.hpp","adapters/Doctest.hpp","adapters/gtest.hpp","adapters/BoostTest.hpp"],[("send_success/send_warning/send_fail","adapters/*.hpp")],observe=["result of the hosting test framework"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
