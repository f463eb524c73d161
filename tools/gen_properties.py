#!/usr/bin/env python3
"""Writes properties.jsonl. The source of the property texts."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Acknowledged practice is durable and recorded exactly once",
 "Every exercise score whose submission was acknowledged is in the exercise's practice history exactly once, with the submitted score and timestamp, in every later session, whatever crashes, restarts and storage errors happen afterwards. A submission that failed or was cut off by a crash appears at most once, and nothing that was never submitted ever appears. The history of an exercise is always returned newest first.",
 ["histories","crash_points","fault_sequences","schedules"],
 "all sequences (and interleavings by concurrent callers) of submissions, with process crashes, I/O errors, torn and short writes and full disks at any storage operation, and any number of restarts",
 "The unit tests write to an in-memory database in one session and never crash, restart or see a failing write; durability is a claim over every crash point and error sequence.",
 ["src/scheduler.rs","src/practice_stats.rs","src/utils.rs"],
 [("one transaction per recorded trial batch","LocalPracticeStats::record_exercise_scores_helper"),("WAL journal","utils::new_connection"),("trial recorded before acknowledgement","DepthFirstScheduler::score_exercise")],
 [("practice_stats","one row per trial","practice_stats.db")],["Trane::score_exercise","Trane::get_scores"])

p("P02","The blacklist is a durable set with exact membership",
 "At every moment and after every restart or crash, a unit is reported as blacklisted exactly when the last acknowledged change concerning it added it, and the listed entries agree with the membership answers. Removing by prefix removes exactly the entries whose identifier starts with that text, and no others. A change that failed or was interrupted leaves each affected unit either in its old or in its new state, and the same answer is given before and after a restart.",
 ["histories","crash_points","fault_sequences","inputs"],
 "all sequences of add, remove and remove-by-prefix over arbitrary identifiers (including ones with SQL pattern characters and letter case), with crashes, storage errors and restarts at any point",
 "Tests add and remove a handful of fixed identifiers in one in-memory session; the agreement of the in-memory copy and the stored set under failed writes, and identifiers with pattern characters, are never exercised.",
 ["src/blacklist.rs","src/lib.rs"],
 [("cache updated after the database","LocalBlacklist::add_to_blacklist_helper"),("cache loaded at start","LocalBlacklist::new")],
 [("blacklist table","persisted entries","blacklist.db"),("cache","in-memory membership","LocalBlacklist::cache")],["Trane::blacklisted","Trane::get_blacklist_entries"])

p("P03","The review list is a durable set",
 "The review list holds exactly the units added and not since removed by acknowledged changes, each once, across restarts, crashes and storage errors. A change that failed or was interrupted leaves that unit either in or out, and leaves every other entry alone.",
 ["histories","crash_points","fault_sequences"],
 "all sequences of adds and removes with crashes, storage errors and restarts at any storage operation",
 "The unit tests check a few adds and removes on an in-memory database in one session, without any failure.",
 ["src/review_list.rs"],[("unique constraint and autocommit statements","LocalReviewList::add_to_review_list_helper")],None,["Trane::get_review_list_entries"])

p("P04","Trimming and prefix removal delete exactly what they say",
 "Trimming scores, score deltas or rewards to N leaves for every unit exactly its min(N, count) newest entries. Removing scores, deltas or rewards by prefix deletes every entry of units whose identifier starts with that text and no entry of any other unit. If the operation fails or the process dies in it, an entry that had to be kept is never lost.",
 ["histories","inputs","crash_points","fault_sequences"],
 "all stored histories (equal and out-of-order timestamps included), all N, all prefixes over arbitrary identifiers, with crashes and storage errors at any point of the operation",
 "Tests trim histories with distinct timestamps and remove simple prefixes with no failure; ties, pattern characters and interruptions are not sampled.",
 ["src/practice_stats.rs","src/practice_deltas.rs","src/practice_rewards.rs"],
 [("per-unit deletes ordered by timestamp","trim_scores_helper, trim_deltas_helper, trim_rewards_helper"),("per-unit deletes","remove_*_with_prefix_helper")],None,["get_scores","get_deltas","get_rewards"])

p("P05","The reward ledger loses and invents nothing",
 "When recording rewards is acknowledged, each one is then either stored, or skipped because an equal reward for the same unit within a day and of similar weight had been stored; the call reports exactly the units it wrote, and each unit keeps its newest rewards up to the documented limit. A recording that failed or was interrupted stores either all of its rewards or none, and does not cause a later equal reward to be skipped. An equal reward recorded again by the same instance soon after is not stored twice.",
 ["histories","crash_points","fault_sequences"],
 "all sequences of reward recordings, removals, trims and restarts, with storage errors and crashes at any storage operation",
 "Tests record rewards without any failing write, so the in-memory duplicate filter is never compared with what storage really holds.",
 ["src/practice_rewards.rs"],
 [("single transaction","record_unit_rewards_helper"),("duplicate filter","RewardCache")],
 [("cache","recent rewards assumed stored","LocalPracticeRewards::cache")],["Trane::record_unit_rewards","Trane::get_rewards"])

p("P06","A library can always be reopened after a crash or an I/O error",
 "If the process dies, or a storage operation fails, at any point while a library is being opened for the first time, opened again, used or closed, then once the fault is gone the library opens again, with the same courses, and accepts new practice.",
 ["crash_points","fault_sequences","histories"],
 "every storage operation of every open, use and close as a crash or error point, repeated over several sessions",
 "Tests open libraries on a healthy disk and never stop half way; every intermediate on-disk state has to be acceptable to the next start.",
 ["src/lib.rs","src/preferences_manager.rs","src/utils.rs"],
 [("config directory initialisation","Trane::init_config_directory"),("idempotent migrations","init of each local store")],
 [(".trane","user data directory","<library>/.trane")],["Trane::new_local"])

p("P07","User preferences change atomically and are never lost",
 "Reading the user preferences always gives the value of the last acknowledged update, or, if later updates failed or were interrupted, that value or one of those updates; never an unreadable, mixed or default value. Opening a library never overwrites existing preferences, even when file-system calls fail while doing so.",
 ["crash_points","fault_sequences","histories"],
 "all sequences of preference updates and library openings, with crashes, short and torn writes, full disks and failing file-system calls at any point",
 "Tests write the file once on a healthy file system; the states between truncation and completion of the write are never observed.",
 ["src/preferences_manager.rs","src/lib.rs"],
 [("preferences file replacement","LocalPreferencesManager::set_user_preferences_helper"),("creation of the default file","Trane::init_config_directory")],None,["Trane::get_user_preferences"])

p("P08","Reported scores always reflect the stored history",
 "At a fixed time, or as of a time set in its place (`override_current_timestamp`), the score a running instance reports for any exercise, lesson or course equals the score a freshly opened instance reports from the same stored data, after any sequence of practice, blacklist changes, and direct edits of stored scores, deltas and rewards, including ones in which storage operations failed. A transient read failure is reported as an error or leaves no trace; it never makes the instance answer from incomplete data afterwards. The score of a lesson is the mean of the scores of its exercises that are not blacklisted, and that of a course the mean over its lessons that have a score and are not blacklisted.",
 ["histories","fault_sequences","inputs"],
 "all sequences of operations of the public interface over random libraries with supersession, encompassing and blacklisted units, with transient storage errors",
 "Tests compare a few scores after one or two operations; whether every operation drops every affected cached score is a claim over all histories and graph shapes.",
 ["src/scheduler/unit_scorer.rs","src/scheduler.rs","src/lib.rs"],
 [("cache invalidation","UnitScorer::invalidate_cached_score"),("invalidate on rewards","DepthFirstScheduler::score_exercise")],
 [("score caches","scores of exercises, lessons and courses","UnitScorer")],["Trane::get_unit_score"])

p("P09","Concurrent use never leaves a stale score behind",
 "When several threads practise and query the same instance, then once they are done every score the instance reports equals the one computed from the stored history. In particular, a score that was being computed while new practice was recorded does not outlive that practice.",
 ["schedules","histories"],
 "all interleavings of concurrent score submissions, batch requests, score queries and invalidations on one shared instance",
 "No test calls an instance from two threads; the race between computing a score and invalidating it needs one particular interleaving.",
 ["src/scheduler/unit_scorer.rs","src/scheduler.rs","src/lib.rs"],
 [("caches shared by threads","UnitScorer"),("Sync instance","unsafe impl Sync for Trane")],None,["Trane::get_unit_score"])

p("P10","Concurrent calls on a shared instance never deadlock, panic or get lost",
 "Any number of threads may request batches, submit scores, query scores and read the library of one instance at the same time: every call returns in bounded time, without panicking and without an error on a healthy disk. Every acknowledged submission is in the history exactly once afterwards, and every batch returned is a valid batch.",
 ["schedules","histories"],
 "all interleavings of concurrent calls on one shared instance",
 "The instance is declared shareable between threads but no test shares one; deadlocks and lost updates depend on the schedule.",
 ["src/lib.rs","src/scheduler.rs","src/scheduler/data.rs","src/scheduler/relearn_pile.rs"],
 [("read-write locks around every component","Trane"),("shared counters","SchedulerData::frequency_map, trial_counts")],None,["Trane::get_exercise_batch","Trane::score_exercise"])

p("P11","Scores stay within bounds whatever the clock and the history do",
 "Every score reported for a unit is a number between 0 and 5, and computing it never fails or panics, for any stored trials, deltas and rewards: out-of-order, duplicate, far past and future timestamps, and a system clock that jumps backwards or forwards. An exercise without any trial scores exactly 0, and a unit with no valid exercises has no score.",
 ["inputs","histories"],
 "all histories of trials, deltas and rewards with arbitrary timestamps, queried at arbitrary clock values with jumps in both directions",
 "Tests use well-ordered recent timestamps and a normal clock.",
 ["src/exercise_scorer.rs","src/reward_scorer.rs","src/scheduler/unit_scorer.rs"],
 [("clamping of scores","PowerLawScorer::score, UnitScorer::get_exercise_score")],None,["Trane::get_unit_score"])

p("P12","Practice rewards flow only along the encompassing relation",
 "Submitting a good score adds rewards that are positive and only for units that the exercise's lesson or course encompasses, directly or transitively; a bad score adds rewards that are negative and only for units that transitively encompass them. A reward is the initial one (0.8, 0.4, -0.3, -0.5 and -1.0 for the scores from 5 to 1, with weight 1) times the weight of each edge of the path with the greatest result, and from the second edge on also times 0.9 (its value) and 0.8 (its weight); where either falls below 0.2 in size, the path ends. It is dated as the score is, and every unit so reached is rewarded unless it got the same reward within a day. No unit gets more than one reward per submission, and submitting a score changes the reported score of no exercise outside the rewarded units, other than the one submitted.",
 ["inputs","histories"],
 "all acyclic libraries with dependency and explicit encompassing edges of any weight, and all practice histories on them",
 "Tests check fixed small graphs; the claim is over all graphs and histories.",
 ["src/scheduler/reward_propagator.rs","src/graph.rs","src/scheduler.rs"],
 [("propagation","RewardPropagator::propagate_rewards"),("encompassing edges","InMemoryUnitGraph::add_encompassed")],None,["Trane::get_rewards","Trane::get_unit_score"])

p("P13","Blacklisted material is never presented",
 "No batch, under any filter or study session, contains an exercise that is itself blacklisted, or whose lesson or course is blacklisted, at the time of the request; this includes exercises recently failed and exercises on the review list. Removing the unit from the blacklist makes it eligible again.",
 ["histories","inputs","configurations"],
 "all libraries, histories of practice and blacklist changes, restarts, and all kinds of filters",
 "Tests blacklist fixed units in fixed libraries mostly with no filter; combinations of filter, relearning and blacklist level are not sampled.",
 ["src/scheduler.rs","src/scheduler/data.rs","src/scheduler/relearn_pile.rs","src/blacklist.rs"],
 [("valid exercise listing","SchedulerData::all_valid_exercises_in_lesson"),("pile cleanup","RelearnPile::select_exercises")],None,["Trane::get_exercise_batch"])

p("P14","New material is withheld until its prerequisites are mastered",
 "Without a filter, or with a metadata filter, a batch contains exercises of a lesson only if every prerequisite of that lesson, and of its course when the lesson is one of the course's first, is satisfied: absent from the library, without exercises that can be practised, blacklisted, superseded (itself or its course), excluded by the filter and its own prerequisites satisfied, or practised up to the passing score and minimum number of trials. Exercises already failed in this session may reappear regardless.",
 ["inputs","histories","configurations"],
 "all acyclic libraries with course and lesson dependencies (missing units included), all practice histories, blacklists and metadata filters",
 "Tests use a few hand-made libraries and students who score everything alike; prerequisites that become or stop being satisfied in other orders are not sampled.",
 ["src/scheduler.rs","src/graph.rs","src/scheduler/unit_scorer.rs"],
 [("dependency check","DepthFirstScheduler::all_satisfied_dependencies"),("starting units","get_initial_stack"),("passing threshold","passes_threshold")],None,["Trane::get_exercise_batch"])

p("P15","Superseded material stops being presented, and comes back",
 "When every unit superseding a lesson or course is mastered to the superseding score and all its own exercises have been seen, batches from the whole library, a metadata filter or a course contain none of its exercises. When the superseding units stop being mastered, its exercises are eligible again.",
 ["inputs","histories"],
 "all libraries with supersession between lessons and courses, chains included, and all practice histories crossing the threshold in both directions",
 "Tests raise the scores once in fixed libraries; histories in which the condition turns on and off again are not sampled.",
 ["src/scheduler/unit_scorer.rs","src/scheduler.rs","src/graph.rs"],
 [("supersession test","UnitScorer::is_superseded"),("skipping","skip_lesson, skip_course")],None,["Trane::get_exercise_batch"])

p("P16","A filter restricts a batch to what it names",
 "Apart from exercises recently failed in this session, a batch for a course, lesson, metadata, review-list, dependents or dependencies filter, given directly or by a saved filter, only contains exercises of the units that filter selects. A filter naming unknown units never makes the scheduler panic.",
 ["inputs","histories","configurations"],
 "all libraries, all filters of every kind (nested metadata filters, unknown and repeated identifiers included) and all practice histories",
 "Tests use a few filters on fixed libraries; nesting and combinations are not sampled.",
 ["src/scheduler.rs","src/data/filter.rs","src/scheduler/data.rs"],
 [("candidate retrieval per filter","DepthFirstScheduler::get_initial_candidates"),("metadata matching","KeyValueFilter")],None,["Trane::get_exercise_batch"])

p("P17","A study session applies the part that the clock says",
 "A study session's batch is restricted by the filter of the part whose interval contains the current time, by the first part's before the start, and by the last part's after the end; clock jumps in either direction simply select the part for the new time. A session without parts behaves as no filter.",
 ["inputs","histories","schedules"],
 "all session definitions, start times and clock readings, with the clock jumping in both directions between requests",
 "Tests evaluate fixed sessions at a few fixed instants and never through the scheduler with a moving clock.",
 ["src/data/filter.rs","src/scheduler.rs","src/scheduler/data.rs","src/study_session_manager.rs"],
 [("part lookup","StudySessionData::get_part"),("clock reading","get_initial_candidates")],None,["Trane::get_exercise_batch"])

p("P18","Every batch is well formed",
 "A batch never lists an exercise twice, every entry is the manifest of an exercise of the library, and the size stays within the configured batch size (or one exercise per mastery window where the batch size is smaller than the five windows) plus the documented relearning share. The number of lessons in progress a batch from the graph draws on never exceeds the configured maximum.",
 ["inputs","histories","configurations"],
 "all libraries, practice histories, batch sizes and filters, review lists with overlapping entries and repeated identifiers included",
 "Tests check sizes in a few fixed set-ups; overlapping selections and extreme batch sizes are not sampled.",
 ["src/scheduler.rs","src/scheduler/filter.rs","src/scheduler/relearn_pile.rs"],
 [("selection","CandidateFilter::filter_candidates"),("in-progress limit","DepthFirstScheduler::extend_candidates")],None,["Trane::get_exercise_batch"])

p("P19","A diligent student is led through the whole library",
 "A student who keeps requesting batches and answers everything well is presented every exercise that is not blacklisted, of every lesson not superseded, within a bounded number of batches and days, in any library without circular prerequisites; and as long as some exercise not mastered is eligible a batch is never empty. The same holds after faults stop, restarts happen, or scores of superseding units fall.",
 ["inputs","histories","schedules"],
 "all acyclic libraries (missing prerequisites, empty courses, blacklisted units included), all random choices of the scheduler",
 "Tests run one sample of the random choices on fixed libraries; progress must hold for every graph and every sequence of random choices.",
 ["src/scheduler.rs","src/scheduler/filter.rs","src/graph.rs"],
 [("graph search","get_candidates_from_graph_helper"),("starting units","get_all_starting_units")],None,["Trane::get_exercise_batch"])

p("P20","Recently failed exercises come back until they are passed",
 "An exercise failed in this session is offered again in later batches until it is passed or blacklisted: each batch contains the configured share of the failed exercises, or all if they are fewer. An exercise that was passed since is no longer offered on that account.",
 ["histories","schedules","configurations"],
 "all sequences of failing and passing scores, batch requests, blacklist changes and failed submissions",
 "A unit test checks the pile in isolation; that every acknowledged submission updates it, and every batch consults it, is a claim over histories.",
 ["src/scheduler/relearn_pile.rs","src/scheduler.rs"],
 [("pile","RelearnPile::update, select_exercises")],None,["Trane::get_exercise_batch"])

p("P21","Opening a library gives the same result in every run",
 "The units, manifests, relations and set of starting lessons read from a library are a function of its files only: they do not depend on the order in which directories are listed, on how the parallel readers are scheduled, or on the random seed. Exactly the courses on disk that are not under an ignored path are loaded, with all their lessons and exercises (those of the generated knowledge base, literacy, music piece and transcription courses included), and every list, prefix search and exported graph shows all of them.",
 ["schedules","inputs","configurations"],
 "all library layouts (plain and generated courses, nested directories, ignored paths), directory orders and schedules of the parallel readers",
 "Tests open libraries in whatever order and schedule the machine happens to produce.",
 ["src/course_library.rs","src/graph.rs","src/data/course_generator"],
 [("walk and parallel processing","LocalCourseLibrary::new"),("graph building","process_results")],None,["Trane::get_course_ids","UnitGraph getters"])

p("P22","A library is never silently opened incomplete",
 "If a file-system operation fails while the courses, saved filters or study sessions of a library are read, opening either fails with an error or yields the complete library; it never succeeds with some unit, manifest content, filter or session missing or altered.",
 ["fault_sequences","inputs"],
 "a failing or short system call at any point of opening any library",
 "Tests only use healthy file systems, or one unreadable file; the error paths of the directory walk are not exercised.",
 ["src/course_library.rs","src/filter_manager.rs","src/study_session_manager.rs","src/data/course_generator"],
 [("walk","LocalCourseLibrary::new, process_course_manifest, process_lesson_manifest"),("scans","scan_filters, scan_sessions")],None,["Trane::new_local"])

p("P23","Inconsistent libraries are rejected whatever the read order",
 "A library with a duplicated unit identifier, a unit naming a different parent than the one it lies in, an empty identifier, an unparseable manifest, a manifest naming a missing file as asset, instructions or material, an encompassing weight outside of the range from zero to one, preferences with invalid scheduler options, a cycle of prerequisites, or two saved filters or sessions of one identifier is rejected with an error, never a panic, in every directory order and reader schedule. A consistent library is never rejected.",
 ["inputs","schedules"],
 "all libraries with one such defect placed anywhere, in all directory orders and reader schedules",
 "Tests contain one sample of some of these defects in one order.",
 ["src/course_library.rs","src/graph.rs","src/filter_manager.rs","src/study_session_manager.rs"],
 [("manifest verification","verify_*_manifest"),("duplicate and cycle detection","InMemoryUnitGraph")],None,["Trane::new_local"])

p("P24","A serialized library is equivalent to its directory",
 "Opening from the serialized form of a library gives the same units, manifests, relations and starting lessons as opening the directory, and, from the same stored practice at the same time, the same scores and the same lessons eligible for batches.",
 ["inputs","histories"],
 "all libraries, and all practice histories made alternately through either form",
 "A test compares one library; equivalence in use after arbitrary histories is not sampled.",
 ["src/course_library.rs","src/lib.rs","src/graph.rs"],
 [("conversion","SerializedCourseLibrary"),("second constructor","Trane::new_local_from_serialized")],None,["Trane::new_local_from_serialized"])

p("P25","Building a course is complete or reported as failed",
 "When building a course directory is acknowledged, opening the library loads exactly the course, lessons, exercises and assets described, also when system calls were short or interrupted. When a write fails, the build returns an error, no other course of the library is changed, and nothing outside the course's own directory is written.",
 ["fault_sequences","inputs","crash_points"],
 "all course descriptions and a failing or short system call at any point of the build",
 "Tests build on a healthy disk only.",
 ["src/course_builder.rs","src/course_builder/knowledge_base_builder.rs"],
 [("builders","CourseBuilder::build, SimpleKnowledgeBaseCourse::build")],None,["CourseBuilder::build","Trane::new_local"])

p("P26","The score of an exercise is the published function of practice and time",
 "At every time, whatever the clock did before, and as of any time set in its place (`override_current_timestamp`), an exercise's reported score is what the published model gives for its stored practice: the recency-weighted mean of its last trials times their power-law retrievability (stability replayed over the trials, decay by exercise type, floor for old well-known material), plus a quarter of the weighted mean of its deltas times retrievability, plus the decayed rewards of its lesson and course when its recent trials let them count, kept within [0, 5].",
 ["histories","inputs"],
 "all stored trials, deltas and rewards, over intervals from seconds to years, exercise types, and clock movements between sessions and calls",
 "Tests check chosen values of single terms, not their composition over stored histories as time goes by.",
 ["src/exercise_scorer.rs","src/reward_scorer.rs","src/scheduler/unit_scorer.rs"],
 [("formulas","PowerLawScorer, WeightedRewardScorer"),("composition","UnitScorer::get_cached_score")],None,["Trane::get_unit_score"])

p("P27","The scheduler options in force govern scheduling and scores",
 "From the moment scheduler options are set on a running library, or read from the preferences when it is opened, until they are changed or reset to the defaults, all answers follow them: scores use only the configured number of trials, deltas and rewards, batches have the configured size, and prerequisites, superseding, lessons in progress and the relearning of failed exercises obey the configured scores, limits and fraction. What was answered or cached under earlier options has no influence.",
 ["histories","inputs"],
 "all histories of option changes, resets, restarts with preferences, practice and clock movements, and all valid option values",
 "Tests set options once, before any score is computed, and mostly in the constructor's defaults.",
 ["src/scheduler.rs","src/scheduler/unit_scorer.rs","src/scheduler/relearn_pile.rs","src/lib.rs","src/data.rs"],
 [("options setters","ExerciseScheduler::set_scheduler_options, reset_scheduler_options"),("preferences","Trane::create_scheduler_options"),("copies held by components","UnitScorer, CandidateFilter, ReviewKnocker, RelearnPile, RewardPropagator")],None,["Trane::set_scheduler_options","Trane::get_exercise_batch","Trane::get_unit_score"])

p("P28","Batches are composed by the mastery windows and the session's success",
 "Of the exercises a lesson filter admits, each mastery window (new, target, current, easy, mastered) fills its configured share of the batch size, at least one exercise, as far as it has any; the shares shift by fixed steps towards harder material above a 90% success rate of this instance and towards easier below 75% and 50%. A batch below three quarters is filled up from the current, new, target, easy and mastered windows, in that order, with the documented limits on new and target; it shrinks to a third of the candidates when there are fewer than three times its size. Of a lesson just passed only the interpolated fraction takes part, material heavily covered by other candidates counts as mastered or is left out, and recently failed exercises come on top. New and difficult exercises of one course are presented in runs of three.",
 ["inputs","histories"],
 "all libraries, histories, lesson filters, blacklists, options, encompassing relations and sequences of answers in a session",
 "Tests check helper functions on hand-made candidates; that the batch as returned has the configured composition, whatever the history and options, is never checked.",
 ["src/scheduler/filter.rs","src/scheduler/review_knocker.rs","src/scheduler/shuffler.rs","src/scheduler.rs"],
 [("window shares","CandidateFilter::filter_candidates, adjusted_mastery_windows"),("coverage","ReviewKnocker::knock_out_reviews"),("passed lessons","DepthFirstScheduler::select_candidates"),("runs","Shuffler::shuffle_candidates")],None,["Trane::get_exercise_batch"])

p("P29","Each answer leaves one trial and, after the first, one prediction error",
 "Each acknowledged score adds to its exercise exactly one trial with its grade and timestamp and, if the exercise had trials before, exactly one delta with the same timestamp equal to the grade minus the score reported just before; a first answer leaves no delta, and no other exercise's trials or deltas change.",
 ["histories","inputs"],
 "all histories of answers, trims, removals, blacklisting, option changes, restarts and clock movements, and all grades and timestamps",
 "Tests check one delta in one fixed sequence.",
 ["src/scheduler.rs","src/practice_deltas.rs","src/practice_stats.rs","src/scheduler/unit_scorer.rs"],
 [("submission","DepthFirstScheduler::score_exercise"),("trial count","UnitScorer::get_exercise_num_trials")],None,["Trane::score_exercise","Trane::get_deltas","Trane::get_scores"])

p("P30","Within a mastery window exercises are drawn by their published weights",
 "Of the exercises competing for the places of one mastery window, each is drawn at random, without replacement, with probability proportional to its published weight, urgency over the square root of cost, at least 0.05. Urgency is one minus the current retrievability, one for new material. The cost falls with the depth at which the search found the exercise, with how much the exercise covers of the other candidates, at dead ends of the library, with a rising record and with stagnation below mastery; it grows with how much other candidates cover the exercise, with how often it was presented since the library was opened, with a falling record and with stagnation of mastered material.",
 ["histories","inputs"],
 "all libraries, histories, batch sizes, lesson, course and review-list filters and restarts; stated over the distribution of the draws",
 "Tests call the weight function on hand-made candidates; how often exercises are really presented over a session is never compared with it.",
 ["src/scheduler/filter.rs","src/scheduler.rs","src/scheduler/data.rs","src/scheduler/review_knocker.rs","src/exercise_scorer.rs"],
 [("weights and draws","CandidateFilter::candidate_weight, select_candidates"),("frequency","SchedulerData::increment_exercise_frequency, get_exercise_frequency"),("depth and dead ends","DepthFirstScheduler::get_candidates_from_graph, get_candidates_from_lesson")],None,["Trane::get_exercise_batch"])

p("P31","A benchmark reports what its simulated students experience",
 "Each of a benchmark's five students practises on its own complete copy of the library, with the benchmark's scheduler options, and the library is left as it was. In each session a student answers exactly the profile's number of exercises, one per simulated second, at the start time plus the session's number times the profile's days between sessions; each grade is drawn with the interpolated probabilities and the lapse rate of the profile, from the number of earlier answers to that exercise. Only lessons are practised of which the prerequisites are passed at that time by those options, apart from exercises failed before. Every answer is recorded at its simulated time, and scores, rewards and batches are computed as of the simulated time, not the real one. The student stops at the end of the first session at which every course scores at least the mastery threshold as of that time, otherwise after the maximum number of sessions. The reported days, sessions and exercises are those of what was practised; a copy that cannot be made completely is an error. Exactly the benchmarks with valid options and probabilities summing to one pass verification.",
 ["inputs","histories","schedules","fault_sequences"],
 "all libraries, profiles, thresholds, options and interleavings of the five students, and all failing system calls",
 "Tests run one benchmark on one library and check that it ends; what the students did and whether the report is true of it is never checked.",
 ["src/benchmark.rs","src/scheduler/unit_scorer.rs","src/reward_scorer.rs","src/scheduler.rs"],
 [("students","Benchmark::simulate_student, get_score, interpolate_performance"),("mastery","Benchmark::check_mastery"),("copies","Benchmark::copy_library_dir"),("simulated time","UnitScorer::set_override_timestamp")],None,["Benchmark::run_benchmark","Benchmark::verify"])

p("P32","Units present what their files contain",
 "In an opened library the name, description, authors, instructions, material, exercise type and exercise content of every unit are those its files give. Assets given as files are seen by absolute paths of the right existing files, wherever the files lie relative to the manifest. Generated courses show the text of their files with the documented defaults: knowledge-base lessons and exercises without a name, the default and the given exercise types, instructions and material files, front and back files; literacy examples and exceptions with their answers and instructions, and the names of readings and dictations; the passages with their times and tracks and the lessons of music and transcription courses; a course's own instructions in place of generated ones. That holds in whatever order directories are read, under whatever reader schedule, when reads are short or interrupted, and after the manifests are serialized. A failing system call may make the opening fail but never makes it show something else.",
 ["inputs","schedules","fault_sequences"],
 "all libraries and contents, directory orders, reader schedules, short or interrupted reads and all failing system calls",
 "Tests compare a few fixed manifests and build courses in one directory; what a learner is shown after opening a library is checked for hardly any combination of optional parts.",
 ["src/course_library.rs","src/data.rs","src/data/course_generator.rs","src/data/course_generator/knowledge_base.rs","src/data/course_generator/literacy.rs","src/data/course_generator/music_piece.rs","src/data/course_generator/transcription.rs"],
 [("paths","NormalizePaths in data.rs"),("generated courses","GenerateManifests::generate_manifests"),("readers","LocalCourseLibrary::open_course, process_lesson_manifest")],None,["CourseLibrary::get_course_manifest","CourseLibrary::get_exercise_manifest"])

p("P33","A library is the same however its path is written",
 "However the path of a library is written (absolute, or relative to the working directory given when opening it; with '.', '..', repeated or trailing slashes; whatever the current directory of the process, and whether the working directory itself is absolute or relative) the same library opens: the same units with the same contents, assets given by absolute paths of the same existing files, the same preferences with exactly the ignored paths left out, the same saved filters and study sessions, the same practice data, blacklist, review list and repository data, and the same scores. A history recorded through one spelling is there through every other. Nothing is created or kept outside the `.trane` directory of that library.",
 ["inputs","histories","schedules"],
 "all spellings of the paths given, current directories, libraries, histories of sessions through different spellings",
 "Tests open every library by the absolute path of a temporary directory; where a relative path is resolved, and whether all parts of the system resolve it in the same way, is never tried.",
 ["src/lib.rs","src/course_library.rs","src/preferences_manager.rs","src/filter_manager.rs","src/study_session_manager.rs"],
 [("configuration","Trane::init_config_directory"),("opening","Trane::new_local, LocalCourseLibrary::new"),("ignored paths","LocalCourseLibrary::new")],None,["Trane::new_local"])

p("P34","Every request finishes within work bounded by the size of the library",
 "However the units of a valid library depend on, encompass and supersede each other, and whatever has been practised, every request returns: opening the library, batches with every kind of filter and any depth, recording a score with the rewards that follow, unit scores, invalidations, changes to the lists. The work done for it (units looked up, locks taken, files and rows accessed) is bounded by the cube of the number of units and relations in the library, and never grows with the number of different paths through them, of which there can be exponentially many.",
 ["inputs","histories"],
 "all acyclic graphs of dependencies, encompassing and superseding (layered ones with exponentially many paths among them), all filters and histories of scores",
 "Tests use a few small graphs with few paths and no limit on the work; a search that visits units again for every path passes all of them and never returns on a library of fifty lessons.",
 ["src/scheduler.rs","src/scheduler/data.rs","src/scheduler/unit_scorer.rs","src/scheduler/reward_propagator.rs","src/scheduler/review_knocker.rs","src/graph.rs"],
 [("depth-first search","DepthFirstScheduler::get_candidates_from_graph"),("dependencies at a depth","SchedulerData::get_dependencies_at_depth"),("superseding","UnitScorer::replace_superseding"),("invalidation","UnitScorer::invalidate_cached_score"),("rewards","RewardPropagator")],None,["ExerciseScheduler::get_exercise_batch","ExerciseScheduler::score_exercise","ExerciseScheduler::get_unit_score"])

p("P35","A batch is listed in random order with hard material in blocks of a course",
 "Leaving exercises recently failed aside, the exercises of a batch whose score is at most the upper bound of the target window are listed in blocks of the same course: a course with k of them has blocks of three and at most one smaller with the rest, each block without anything else in between. All other exercises stand alone. Blocks and single exercises come in random order: any two of new material (mean score at most 1), or any two of other material, in either order equally often, as are the exercises of a block, while new material is biased towards the end, before a given other with probability 0.28.",
 ["inputs","histories"],
 "all batches, filters, histories, options and random choices of the scheduler",
 "Tests order a few made-up candidates a few times; they neither see the real batches nor could tell a biased order from a random one.",
 ["src/scheduler/shuffler.rs","src/scheduler.rs"],
 [("order","Shuffler::shuffle_candidates"),("bias","Shuffler::group_sort_key"),("use","DepthFirstScheduler::get_exercise_batch")],None,["ExerciseScheduler::get_exercise_batch"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
