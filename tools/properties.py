"""Writes properties.jsonl and MANIFEST.json: the one table of the properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, tech=tech, note=note, observe=list(observe), state=list(state)))


CMD = "pkg/core/command/"
EV = "pkg/core/evaluator/"
AST = "pkg/core/ast/"
PARSER = ["pkg/core/parser/parser.go", "pkg/core/parser/parser.pigeon"]
NOT = "pkg/core/notation/notation.go"
ROLLER = "pkg/core/dice/roller/roller.go"
BCD = "pkg/bcdice/bcdice.go"
MODEL = "online reference-model monitor on the recorded dice of executions"
TRUST = " Trusts the independent model in harness/ref (written from the README and the observed behaviour) and the recording die feeder. Held on the executions of the run, nothing more."

prop("C01", "No text makes the dice bot crash, hang or become unusable",
     "For every command text of up to 4 KiB, of any bytes, executing it ends with either a result or an error, never with a panic, a hang or both. Executing one command never draws more than 1,000,000 dice, however large the numbers in it. After any such text the same instance executes further commands correctly.",
     ["inputs", "histories", "fault_sequences"], "every byte string up to 4 KiB, every die value the feeder can give, every position in a session, every feeder fault",
     "The tests execute some hundred well-formed texts; none is hostile, none has large numbers, none goes on after a failure.",
     PARSER + [BCD, EV + "evaluator.go", ROLLER, CMD + "command.go"],
     [("memoized parser with bounded backtracking", "pkg/core/parser/parser.go"), ("limit on the number of dice", ROLLER), ("errors instead of panics for bad operands", EV + "evaluator.go")],
     "hostile workload under panic, hang and resource monitors",
     "Byte-level, token-level and structural mutation of commands on instances that live on; a worker per CPU with CPU budget and address space limit; canary commands after hostile ones are compared with the model." + TRUST,
     ["return values of ExecuteCommand", "number of dice drawn", "process exit"])

prop("C02", "A sum roll is the arithmetic of its dice, for every expression",
     "A sum roll such as (2D6+3)*2-1D8/2R draws, for each of its dice terms from left to right, exactly the stated number of dice with the stated number of sides, and its total is the integer value of the whole expression with the sum of each term's dice in its place (usual precedence, parentheses, the rounding of each division). The message shows the command with its arguments evaluated, the dice of every term in the order they were rolled with their sum, and the total. Zero dice, dice with no sides, division by zero and sums that do not fit are refused.",
     ["inputs"], "every well-formed sum roll expression, nesting, argument expression and dice values",
     "The tests evaluate a few dozen fixed expressions with fixed dice; the grammar of expressions and the values of the dice are unbounded.",
     [CMD + "execute_d_roll_expr.go", CMD + "execute_d_roll_comp.go", EV + "eval_var_args.go", EV + "determine_values.go", EV + "evaluator.go", NOT, AST + "sum_roll_result.go"],
     [("evaluate arguments, then determine dice, then compute", CMD + "execute_d_roll_expr.go"), ("tree rewriting of variable nodes", EV + "determine_values.go")],
     MODEL, "Random expressions over the whole grammar; every message part, the dice, the total and refusals are compared with the model." + TRUST,
     ["Result.MessageParts", "Result.RolledDice", "feeder calls"])

prop("C03", "A basic roll lists every die, group by group, and counts successes",
     "A basic roll such as 2B6+3B10 draws the dice of its groups in order, exactly as many and with as many sides as written (arguments may be expressions), and lists all their values in that order. With a target such as >=4 the number of successes shown equals the number of listed values that meet it.",
     ["inputs"], "every number of groups, every argument and target expression, every comparison operator, all dice values",
     "The tests use a handful of rolls with fixed dice.",
     [CMD + "execute_b_roll_list.go", CMD + "execute_b_roll_comp.go", EV + "eval_b_roll_list.go", EV + "eval_b_roll_comp.go", "pkg/core/object/array.go", "pkg/core/object/b_roll_comp_result.go", AST + "b_roll_list.go"],
     [("dice grouped per roll, flattened for the message", EV + "eval_b_roll_list.go"), ("count of values that satisfy the comparison", EV + "eval_b_roll_comp.go")],
     MODEL, "As C02 for basic rolls, with targets near the dice values." + TRUST, ["Result.MessageParts", "Result.RolledDice"])

prop("C04", "An exploding roll rerolls exactly the dice that meet its threshold",
     "An exploding roll rolls its groups in order; as many dice as were at least the threshold (written in brackets, or else the number of the comparison) are then rolled again with the same sides after all groups that still wait, and so on until no die reaches it. All groups and rerolls are shown in the order they were rolled, and the successes are counted over all dice by the comparison. A roll without a threshold, or with one below 2, is answered with a message that says so and rolls no dice beyond those of its arguments.",
     ["inputs", "histories"], "every list of groups, comparison, threshold and target expression, and every sequence of dice values (reroll chains of any length)",
     "The tests fix a few dice sequences with one or two rerolls; chains, several groups, and all operators are not combined.",
     [CMD + "execute_r_roll_list.go", CMD + "execute_r_roll_comp.go", EV + "eval_r_roll_list.go", EV + "eval_r_roll_comp.go", EV + "reroll_threshold.go", AST + "r_roll_list.go", "pkg/core/object/r_roll_comp_result.go"],
     [("queue of groups to roll", EV + "eval_r_roll_list.go"), ("threshold checks", EV + "reroll_threshold.go")],
     MODEL, "Feeder modes bias dice towards the threshold so that chains occur; maximum chain and group counts are in the evidence." + TRUST, ["Result.MessageParts", "feeder calls"])

prop("C05", "A compounding roll adds rerolls to each die and totals correctly",
     "A compounding roll keeps rerolling a die while it is at least the threshold and adds the values to that die before the next die is rolled; the message shows each die's compound value, with its parts if it was rerolled, and the modifier. Without a target it gives the largest compound value and the sum of all, both with the modifier added; with a target it counts the compound values that meet it with the modifier added. A missing threshold or one below 2 is answered with a message that says so and rolls no dice beyond those of the arguments; sums and modifiers whose magnitude does not fit are refused.",
     ["inputs", "histories"], "every list of groups, threshold, modifier expression, target and sequence of dice values",
     "The tests fix a few dice sequences; chains over several groups with signed modifiers are not explored.",
     [CMD + "execute_u_roll_expr.go", CMD + "execute_u_roll_comp.go", EV + "eval_u_roll_expr.go", EV + "eval_u_roll_comp.go", AST + "u_roll_expr.go", "pkg/core/object/u_roll_expr_result.go", "pkg/core/object/u_roll_comp_result.go", "pkg/core/object/array.go"],
     [("chain per die", EV + "eval_u_roll_expr.go"), ("maximum and total of the array of arrays", "pkg/core/object/u_roll_expr_result.go")],
     MODEL, "As C04 for compounding rolls." + TRUST, ["Result.MessageParts", "feeder calls"])

prop("C06", "The success verdict agrees with the shown total and target",
     "A sum roll with a comparison (=, <>, <, >, <=, >=) is reported as a success exactly if its total stands in that relation to the evaluated target, and as a failure otherwise, in the verdict of the result and in the message alike. This includes totals equal to the target and next to it, and targets that are expressions. All other commands, also those that count successes over dice, report neither success nor failure.",
     ["inputs"], "every operator, total and target expression, in particular target-1, target, target+1",
     "The tests compare a few totals with a few targets; boundaries of each operator on each form are not all reached.",
     [CMD + "execute_d_roll_comp.go", CMD + "execute_b_roll_comp.go", CMD + "result.go", EV + "partial_eval_of_compare.go", EV + "eval_infix_expression.go", "pkg/core/object/boolean.go"],
     [("comparison of total and target", CMD + "execute_d_roll_comp.go")],
     MODEL, "Targets are chosen from a preview of the total (-1, 0, +1) for each operator." + TRUST, ["Result.SuccessCheckResult", "Result.MessageParts"])

prop("C07", "Calculation is exact integer arithmetic with the stated rounding",
     "C(...) gives the exact integer value of its expression: unary minus, multiplication and division before addition and subtraction, left to right, parentheses as written. A division discards the fraction (rounds toward zero) by default, rounds to nearest with R (halves away from zero) and toward plus infinity with U, exactly for all operands whatever their size and sign. Division by zero and results outside 64 bits are refused, never wrapped or approximated.",
     ["inputs"], "every expression and every 64-bit operand",
     "The tests compute a few small expressions; rounding of negative and huge operands and overflow are not tested.",
     [CMD + "execute_calc.go", EV + "eval_infix_expression.go", EV + "eval_prefix_expression.go", AST + "divide.go", "pkg/core/object/integer.go"] + PARSER,
     [("one function per operator", EV + "eval_infix_expression.go")],
     "online reference-model monitor (arbitrary-precision arithmetic)", "Operands are drawn from boundaries of 2^31, 2^53, 2^62, 2^63 and small numbers; the model computes with math/big. The default division is what the code documents (see DESIGN.md)." + TRUST, ["Result.MessageParts"])

prop("C08", "Choice gives one of the listed items, the one its die says",
     "CHOICE[...] with n items rolls exactly one die of n sides and gives the item at that position, with white space around it removed and otherwise byte for byte as written; every item can be chosen. The message lists all the items in their order.",
     ["inputs"], "every list of items (any Unicode text, empty items, quotes, spaces), every die value",
     "The tests use a few lists.",
     [CMD + "execute_choice.go", EV + "eval_choice.go", AST + "choice.go"] + PARSER,
     [("items by index of the die", EV + "eval_choice.go")],
     MODEL, "Items of many scripts, separators, embedded commands and white space." + TRUST, ["Result.MessageParts", "feeder calls"])

prop("C09", "A random number [min...max] is drawn uniformly once per occurrence",
     "Each [min...max] in a command is replaced by min - 1 plus the value of one die of max - min + 1 sides, drawn in the order of the occurrences, so that exactly the values min to max arise, one die value each. The command that is executed and shown is the one with these values in place. If min is not less than max the command is refused.",
     ["inputs"], "every position where a random number may stand, every range, every die value",
     "The tests use a few ranges in a few places.",
     [EV + "eval_var_args.go", EV + "eval_infix_expression.go", EV + "determine_values.go", AST + "variable_infix_expression.go"] + PARSER,
     [("die of the width of the range", EV + "evaluator.go")],
     MODEL, "Random numbers in counts, sides, targets, thresholds, modifiers, and terms." + TRUST, ["Result.MessageParts", "feeder calls"])

prop("C10", "Dice drawn, dice needed and dice reported are the same",
     "Executing a command draws from the die feeder exactly the dice it needs, once, in order and with the right number of sides, and reports exactly these in its result: none lost, repeated, reordered or added. A text that is not a command draws none. If the feeder fails or runs out, the command is refused at that die without drawing another, the rest of a dice queue is left as it was, and the instance remains usable.",
     ["inputs", "fault_sequences"], "every command, every point at which the feeder can fail, every length of the dice queue",
     "The tests compare the dice of a few commands; failing feeders and queues too short are hardly tested.",
     [BCD, "pkg/dicebot/dicebot.go", CMD + "command.go", CMD + "result.go", EV + "environment.go", EV + "evaluator.go", ROLLER, "pkg/core/dice/feeder/queue.go"],
     [("rolled dice pushed to the environment", EV + "evaluator.go"), ("result takes the dice of the environment", CMD + "command.go")],
     "conservation monitor over the recorded feeder calls, with fault injection",
     "Every draw is recorded at the feeder's interface; faults are placed among the draws that the model predicts." + TRUST, ["feeder calls", "Result.RolledDice", "Queue.Dice"])

prop("C11", "The command shown in a result denotes the command that was typed",
     "The command echoed in a result, typed again with the same dice, gives the same result; it has the same meaning as the typed text with its random numbers and arguments evaluated. The same holds for the notation that is derived from any parsed command: it is accepted again and means the same.",
     ["inputs"], "every command: every nesting of operators, parentheses, signs and rounding suffixes",
     "The tests compare the notation of a few expressions with literals; parentheses around nested operators are a combinatorial matter.",
     [NOT, AST + "operator_precedence.go", AST + "divide.go", AST + "basic_infix_expression.go", AST + "variable_infix_expression.go"],
     [("parentheses by precedence and associativity", NOT)],
     "round-trip monitor: re-parse and re-execution", "One known finding (a product of a quotient) is identified by its shape and reported as such." + TRUST, ["Result.MessageParts", "notation.Parenthesize / InfixNotation"])

prop("C12", "The secret mark changes nothing but the secret flag",
     "A command with a leading S or s is executed exactly as without it: same dice, same message, same verdict, same acceptance; only the result is flagged as secret. One mark only is removed, and commands without it are never flagged. This holds for built-in and game-specific commands alike.",
     ["inputs"], "every text, with and without the mark; every dice bot",
     "The tests mark a few commands.",
     [BCD, "pkg/core/util/secret_roll.go", CMD + "result.go"],
     [("mark removed before execution", "pkg/core/util/secret_roll.go"), ("flag set on the result", BCD)],
     "differential monitor: paired executions on the same dice", "The pair is compared field by field." + TRUST, ["Result", "feeder calls"])

prop("C13", "Letter case and trailing comments do not matter",
     "The letters of a command may be typed in any mix of upper and lower case (the items of a choice keep theirs), and any text after white space following a command is a comment: with the same dice the result is the same.",
     ["inputs"], "every command, every mix of case, every comment (any bytes, other commands, line breaks)",
     "The tests do this for a few commands.",
     [BCD] + PARSER, [("grammar ignores case", "pkg/core/parser/parser.pigeon"), ("second attempt with the part before white space", BCD)],
     "differential monitor: paired executions on the same dice", "Variants of generated commands." + TRUST, ["Result", "feeder calls"])

prop("C14", "Exactly the command language is accepted",
     "Every text of the command language (sum, basic, exploding and compounding rolls, calculation, choice, random numbers, comparisons) is parsed and executed as the kind of command it is, and every other text is refused as not being a command, without dice. A parser accepts a text independently of what was parsed before.",
     ["inputs", "histories"], "every text: valid ones of any size, near misses, concatenations and random ones",
     "The tests parse about 1,000 chosen texts; near misses are unbounded.",
     PARSER + [BCD, CMD + "command.go"], [("PEG grammar", "pkg/core/parser/parser.pigeon")],
     "differential monitor against an independent recognizer", "An independently written recursive-descent parser (harness/ref/parse.go) decides membership and structure; mutants are biased to single-token edits." + TRUST, ["parser.Parse", "ExecuteCommand"])

prop("C15", "Instances work side by side without interfering",
     "Separate instances used from several goroutines at once are free of data races and give exactly the results that each gives alone. This includes parsing, creating and evaluating in parallel, the first uses after the start of the process, and concurrent requests to the API, which all get the same answers as single ones.",
     ["schedules"], "every interleaving of goroutines, each with its own instance; concurrent first uses; concurrent API requests",
     "The tests are sequential.",
     PARSER + [BCD, EV + "evaluator.go", "pkg/core/dice/feeder/mt19937.go", "pkg/dicebot/list/list.go", "cmd/GoBCDiceAPI/controllers/router.go", "cmd/GoBCDiceAPI/controllers/v1/systems.go", AST + "ast.go"],
     [("no shared mutable state between instances", "pkg/core/parser/parser.go")],
     "Go race detector with stress and comparison with sequential results", "The race detector sees races between the accesses that were executed; goroutines start at a barrier, yields are injected in the feeders, cold starts run in fresh processes." + TRUST, ["race reports", "results of goroutines"])

prop("C16", "A result depends on its command and dice only, and is final",
     "What a command gives depends on the instance's game system, the text and the dice alone: not on earlier commands, refused commands, failures of the feeder, or exchanges of the feeder or the game system and back. A result that was returned does not change when further commands are executed, and changing it does not affect them.",
     ["histories"], "every sequence of commands and reconfigurations on one instance",
     "The tests execute one command per instance.",
     [BCD, "pkg/dicebot/dicebot.go", EV + "environment.go", CMD + "result.go", "pkg/core/util/clone.go", "pkg/dicebot/gamesystem/basic/basic.go"],
     [("a fresh evaluator per command", BCD)], "history monitor: replay on a fresh instance, snapshots of results",
     "Sessions of up to a dozen commands." + TRUST, ["Result"])

prop("C17", "Random dice are in range and reproducible from their seed",
     "The random feeder seeded with a number gives the documented Mersenne Twister sequence: two feeders with the same seed give the same dice for the same requests, whatever else happens in between, and reseeding restarts it. Each value lies between 1 and the number of sides and follows from the generator by the unbiased mapping; a number of sides below 1 is refused and consumes nothing.",
     ["inputs", "histories"], "every seed, every sequence of numbers of sides, several feeders interleaved",
     "The tests draw a few dice of one size with one seed.",
     ["pkg/core/dice/feeder/mt19937.go", "pkg/core/dice/feeder/feeder.go", "pkg/core/dice/die.go"],
     [("mt19937 source behind rand.Rand", "pkg/core/dice/feeder/mt19937.go")], "online monitor against an independent MT19937-64 and mapping",
     "The generator is implemented a second time in the harness." + TRUST, ["MT19937.Next"])

prop("C18", "The dice queue is a first-in first-out queue",
     "A dice queue returns its dice in the order they were given, each once; appending puts dice at its end, setting replaces its content, clearing empties it; the remaining count and contents shown are always those of a list treated so. An empty queue reports an error and stays usable. It does not share storage with the caller: changing the slices that were passed in or returned changes nothing in it.",
     ["histories"], "every sequence of operations, with slices reused and modified by the caller",
     "The tests perform one or two operations each.",
     ["pkg/core/dice/feeder/queue.go", "pkg/core/dice/feeder/feeder.go", "pkg/core/dice/die.go"],
     [("copying of slices", "pkg/core/dice/feeder/queue.go")], "history monitor against a list model", "Random operation sequences with aliasing attempts." + TRUST, ["Queue operations"])

prop("C19", "Rolling dice checks its arguments and its feeder",
     "Rolling n dice with s sides gives exactly n dice of s sides, the next n of the feeder in order, and the record of rolled dice grows by exactly these; n or s below 1, and n above the limit, are refused without drawing. If the feeder fails or hands out a die with other sides or a value not on its faces, that roll is refused. The record and copies of it are independent of each other.",
     ["inputs", "fault_sequences", "histories"], "every pair of numbers, every fault of the feeder, every sequence of rolls",
     "The tests roll a few dice on good feeders.",
     [ROLLER, EV + "environment.go", EV + "evaluator.go", "pkg/core/dice/die.go"],
     [("checks in RollDice", ROLLER), ("PushRolledDice", EV + "environment.go")], "history monitor with fault injection at the feeder", "Random sequences of rolls with faults." + TRUST, ["DiceRoller.RollDice", "Environment.RolledDice"])

prop("C20", "A REPL session shows exactly the results of its commands",
     "For each line typed into the REPL it prints what the line denotes under its settings: the result of a roll (with the same evaluation as the library, secret rolls included), the AST, tokens or dice as asked by its commands, or an error; and then it prompts again. Setting the feeder, its dice or the game affects the following lines and nothing else does; dice set for the queue are used anew by every line. It ends at .quit or at the end of the input, without a crash, whatever was typed.",
     ["histories", "inputs"], "every sequence of input lines: commands, settings, malformed and empty lines, early end of input",
     "The REPL has no tests.",
     ["cmd/GoBCDiceREPL/repl/repl.go", "cmd/GoBCDiceREPL/main.go"], [("command table and session state", "cmd/GoBCDiceREPL/repl/repl.go")],
     "trace monitor: the real binary's output is parsed against a session model", "The built binary is driven by pipe with random sessions; the output is checked line by line." + TRUST, ["standard output of the REPL", "exit status"])

prop("C21", "The shown syntax tree is a faithful rendering of the command",
     "The S-expression of a parsed command shows its whole structure: operators, rounding, dice notations, thresholds, modifiers and every number in their places, so that commands of different structure have different S-expressions and the typed command can be rebuilt from it; showing a command changes nothing in what its execution gives. A node of the tree is reported as variable exactly if dice, a random number or a choice occur in it, and as constant otherwise, at every level.",
     ["inputs"], "every command",
     "The tests compare a few S-expressions with literals.",
     [AST + f for f in ("ast.go", "command.go", "choice.go", "b_roll_list.go", "r_roll_list.go", "u_roll_expr.go", "infix_expression.go", "prefix_expression.go", "int.go", "string.go", "nil.go", "divide.go")],
     [("SExp and IsVariable per node", AST + "ast.go")], "round-trip monitor against an independent reader", "S-expressions are compared with those of the independent parser." + TRUST, ["SExp", "IsVariable"])

prop("C22", "The API answers consistently with the library",
     "GET requests of the API's root, version, systems and names paths are answered with status 200 and well-formed JSON that agrees with the library (its version; all registered systems once each with names and sort keys, the basic dice bot first), whatever was requested before; other paths and methods are not answered with 200. The body helpers mark a body as ok exactly for status 200 and carry the given object, collection with its count, or error message unchanged. A record of validation errors keeps the last message for each field.",
     ["inputs", "histories"], "every request (method, path, query) and sequence of requests",
     "The API has no tests.",
     ["cmd/GoBCDiceAPI/controllers/router.go", "cmd/GoBCDiceAPI/controllers/root.go", "cmd/GoBCDiceAPI/controllers/v1/names.go", "cmd/GoBCDiceAPI/controllers/v1/systems.go", "cmd/GoBCDiceAPI/controllers/v1/version.go", "cmd/GoBCDiceAPI/helpers/errors.go", "cmd/GoBCDiceAPI/helpers/response.go", "cmd/GoBCDiceAPI/models/systems.go", "pkg/version/version.go"],
     [("router and JSON helpers", "cmd/GoBCDiceAPI/controllers/router.go")], "online monitor on requests and responses", "Handlers are driven in process." + TRUST, ["HTTP responses"])

prop("C23", "Dice texts and test data files mean what they say",
     "Formatting dice as text and parsing the text gives the same dice, for dice of any value and any number: one line of value/sides, separated by a comma and a blank (or by commas only). A test data file is read as exactly the test cases it contains, in order, with game, number, lines of input, output and dice as written. A malformed dice text, or a number in it that does not fit, is refused instead of being read as something else.",
     ["inputs"], "every list of dice, every data file of the format, malformed dice texts",
     "The tests read a few files.",
     ["pkg/dicebot/testing/testing.go", "pkg/dicebot/testing/testcase.go", "pkg/core/dice/die.go"],
     [("ParseDice, Parse", "pkg/dicebot/testing/testing.go")], "round-trip monitor", "Files and dice are generated from known cases and read back." + TRUST, ["ParseDice", "FormatDice", "testing.Parse"])

prop("C24", "Parsing time grows moderately with the length of the text",
     "Parsing a text of n bytes takes a number of steps and of allocations at most quadratic in n, whatever its content: nesting, chains of operators, divisions, brackets or unfinished constructs; and so does showing the parsed command as a syntax tree or notation, and executing it apart from its dice. Doubling such a text never multiplies the work by much more than four.",
     ["inputs"], "families of texts of growing length over all constructs",
     "The tests parse short texts; exponential backtracking appears with depth only.",
     PARSER, [("PEG with limited lookahead", "pkg/core/parser/parser.pigeon")], "step-count monitor (allocations and parser steps, no wall clock)",
     "Families are generated by repeating random fragments; work is measured in allocations and expression counts, not time." + TRUST, ["parser statistics", "allocations"])

prop("C25", "Rerolls never go on beyond the limit",
     "An exploding roll whose dice keep reaching the threshold stops after the configured number of groups (10,000 unless set), and a die of a compounding roll after that number of values; the result then shows what was rolled. Chains that end earlier are complete and not affected. The limit counts anew for every roll and, in compounding rolls, for every die.",
     ["inputs", "histories"], "every limit, number of dice and groups, and dice sequence around the limit",
     "The tests use dice that end the chain after a few rerolls.",
     [EV + "eval_r_roll_list.go", EV + "eval_u_roll_expr.go", EV + "evaluator.go", EV + "reroll_threshold.go"], [("counter of rerolls", EV + "eval_r_roll_list.go")],
     MODEL, "Chains of limit-1, limit, limit+1 for random limits." + TRUST, ["evaluator results", "feeder calls"])

prop("C26", "Game systems are found by name and take precedence for their commands",
     "Every registered game system can be selected by its identifier and none other; the lists of identifiers and of systems contain each registered system once, in the stated order, and agree with one another. After selection, results carry the system's identifier, commands of the system are executed by it, and all other commands work as in the basic dice bot. Selecting an unknown system is an error and changes nothing.",
     ["configurations", "histories"], "every set of registered systems, every sequence of selections and commands",
     "Only the basic dice bot is registered in the tests.",
     ["pkg/dicebot/list/list.go", "pkg/dicebot/dicebot.go", "pkg/dicebot/gamesystem/gamesystem.go", "pkg/dicebot/gamesystem/basic/basic.go", BCD],
     [("registry map and sorted list", "pkg/dicebot/list/list.go"), ("own command first, then the basic ones", BCD)], "history monitor with synthetic game systems registered by an overlay",
     "Systems are added at run time through a build overlay; nothing in /repo is changed." + TRUST, ["list functions", "Result"])

prop("C27", "Evaluating a parsed command yields the objects its dice determine",
     "An embedding program that parses a command and evaluates the tree itself gets an object of the type and content that the command and the drawn dice determine: the integer of a calculation or sum, the truth of a comparison, the chosen item, the list of values or of reroll groups, the number of successes, the bonus, sum and maximum of an upper roll. This holds whether the values are determined step by step or the tree is evaluated in one pass. Determining a tree puts the dice drawn in the place of each roll; a determined tree can be evaluated again without drawing and with the same outcome; a tree with rolls draws fresh dice each time, and earlier objects keep what they hold. Arrays show, join, sum and maximise exactly their elements.",
     ["inputs", "histories"], "every command, every dice sequence and limit, repeated evaluation of one tree, nested arrays",
     "The tests evaluate single trees once, on a few dice; the texts of results hide the objects.",
     [EV + f for f in ("evaluator.go", "determine_values.go", "eval_var_args.go", "eval_b_roll_list.go", "eval_r_roll_list.go", "eval_u_roll_expr.go", "eval_infix_expression.go")] + ["pkg/core/object/" + f for f in ("array.go", "integer.go", "u_roll_expr_result.go")],
     [("evaluation by type of node", EV + "evaluator.go"), ("kept sums of a roll", "pkg/core/object/u_roll_expr_result.go")],
     "online monitor on evaluator objects and trees against a reference model", "The objects are judged, not the texts; arguments with random numbers in R and U rolls are only evaluated step by step." + TRUST, ["Evaluator.Eval", "objects", "Environment.RolledDice"])

prop("C28", "A data-driven test passes exactly if the command behaves as written",
     "Running test data files for a game system gives a verdict on every test case in them, in order: it passes exactly if executing its command under that game system, with its dice queued, gives the written output (with the mark of a secret roll) and uses up the dice, or, where no output is written, is refused. A failing case does not keep the others from being run; a file that is missing or malformed fails.",
     ["inputs"], "every data file of the format, right or wrong in one thing, for any registered game system",
     "The runner is used by the tests with right files of the basic dice bot only: nothing shows that it would notice a wrong one.",
     ["pkg/dicebot/testing/testing.go", "pkg/dicebot/testing/testcase.go"],
     [("Run", "pkg/dicebot/testing/testing.go")], "differential monitor on the verdicts of a real test binary",
     "The runner is built as a test binary with a test of ours laid over the package; the library itself judges the commands. Only the first input line is executed (a TODO of the code)." , ["test verdicts", "exit status"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                     "thorough_cmd": "env VERIF_TIER=thorough bash check.sh " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "No hooks in /repo: the monitors observe at exported interfaces; build overlays live in /verif."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
