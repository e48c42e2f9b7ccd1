"""Writes /verif/properties.jsonl (the list of properties).  Run by hand when the list changes."""
import json, os

PX = "MahjongAI/process_xml.py"; DR = "MahjongAI/draw.py"; DE = "MahjongAI/decision.py"
AG = "MahjongAI/utils/agari.py"; CO = "MahjongAI/utils/constants.py"; TU = "MahjongAI/turn.py"
ST = "MahjongAI/state.py"; GI = "MahjongAI/gameinfo.py"; SH = "MahjongAI/utils/shanten.py"
DL = "MahjongAI/utils/dataloader.py"; SL = "MahjongAI/supervised_learning.py"
AGENTS = [f"MahjongAI/agents/{a}.py" for a in
          ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_ordered")]

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Meld codes decode to the meld the players made",
     "Every meld code the log format can carry decodes to exactly the meld it denotes: its type (chi, pon, open kan, added kan, closed kan), the physical tiles the caller reveals from hand, the physical tile claimed (or none), the relative seat it was claimed from, and whether a red five is part of it.",
     ["inputs"], "all legal meld codes of all five types (the 16-bit code space is small enough to be covered completely), plus random codes inside generated games",
     "The existing tests decode 15 hand-picked codes, all in canonical form; the codes real games contain (arbitrary physical copies, other claimed positions) are not among them.",
     [DR], [("bit-field decoders, one per meld type", DR), ("revealed/claimed tile extraction", DR)],
     ["decoded pattern tuples", "revealed tiles and claimed tile"])

prop("C02", "Equal calls share one canonical code, different calls never do",
     "Two meld codes get the same canonical code exactly when they are the same kind of call, on the same tile kinds, at the same claimed position, from the same relative seat (for an added kan the seat is irrelevant) and with the same role of the red five (absent, claimed, from the caller's hand, added later), whatever physical copies were used. Canonicalising twice changes nothing, a canonical code still denotes the same call, and a meld built from a description is already canonical and denotes that description.",
     ["inputs"], "all pairs of legal meld codes, and all meld descriptions that can be built",
     "Tests check that the canonical form of canonical codes is unchanged; they never canonicalise a code that is not canonical already, which is every code whose physical copies differ from the chosen representative.",
     [DR], [("canonicalisation, one function per meld type", DR), ("constructors from a description", DR),
            ("matching an executed call with the offered call", PX)],
     ["canonical code of a meld"])

prop("C03", "Action slots identify call choices uniquely",
     "Every call maps to an action slot inside the action range of the decision it belongs to and outside the slots of pass, win and riichi. Two calls of one decision type share a slot exactly when they are the same type of call on the same tile kinds at the same claimed position and agree on whether the caller spends a red five from the concealed hand (kans on one tile kind are one choice).",
     ["inputs"], "all legal meld codes, pairwise",
     "No test looks at action slots at all; a collision needs a particular pair of codes out of tens of thousands.",
     [DR] + AGENTS, [("slot numbering for own-turn kans", DR), ("slot numbering for calls on a discard, with separate red-five slots", DR)],
     ["slot index of a meld", "action masks of samples"])

prop("C04", "Only games of the intended rule set are turned into samples",
     "A game log is turned into samples exactly when its type says human opponents, red fives in play, the third rule flag (value 4) unset and four players, whatever its other flags are. Every other game type, and every game that contains a player disconnection, is refused with the invalid-game signal, and a log without exactly one readable game-type element is refused with an error.",
     ["inputs", "configurations"], "all game type values, games with disconnections at any point, logs with a missing, repeated or unreadable game-type element",
     "No test covers the filter; the repository's two sample logs both pass it.",
     [PX, GI], [("game type flag decoding", GI), ("refusal of unsupported games", PX), ("disconnection detection while grouping events", PX)],
     ["exception raised by log processing", "flag accessors"])

prop("C05", "Samples show the round's header, scores and deposits correctly",
     "At every decision point the snapshot shows the dealer, the number of rounds left in the game, how many dealer turns each seat has left, the repeat counter, the current scores and the current number of riichi deposits, as given by the game type and the round's header plus the riichi deposits accepted so far.",
     ["inputs", "histories"], "all round headers (any round of an east-only or east-south game, dealer, repeats, deposits, scores) and all orders of accepted or interrupted riichi declarations",
     "No test processes a log; deposits depend on the order of riichi declarations, discards and wins.",
     [PX, GI, ST], [("header parsing", PX), ("dealer-turn arithmetic", PX), ("score and deposit update on riichi acceptance", PX)],
     ["snapshot of each decision point"])

prop("C06", "Decision points follow the play one for one",
     "Each round yields, in the order of play, exactly one own-turn decision for the drawing seat per draw, one discard decision and then one reaction decision for the discarding seat per discard, and one reaction decision per added kan, and nothing else. Every decision point carries the seat that acts and, for discards, the physical tile discarded.",
     ["histories"], "all legal rounds: any interleaving of draws, discards, chi, pon, all kinds of kan, riichi, new dora indicators and endings",
     "No test processes a log; the order of decision points depends on the whole event history of a round.",
     [PX, TU], [("event loop over a round", PX)], ["list of decision points per round"])

prop("C07", "The event history records every public event and nothing hidden",
     "The event history of a round has exactly one entry per discard, call, accepted riichi and revealed dora indicator, in the order they happened, and each entry identifies the acting seat and the event: the discarded tile kind and whether it was the tile just drawn, the call by its action slot, the riichi, or the indicator's tile kind. The history is unaffected by anything hidden, such as the tiles in concealed hands or the tiles drawn.",
     ["histories"], "all legal rounds, and pairs of rounds that differ only in hidden tiles",
     "No test compares the history with the log; hidden-information leaks only appear when two logs are compared.",
     [PX, CO], [("token builders for discard, call, riichi, dora", PX), ("event and actor bit fields", CO)], ["history of each round"])

prop("C08", "No sample depends on anything that happens later",
     "The history visible at a decision point is exactly the public events before it, which for a reaction includes the discard or added kan being reacted to. Nothing in a decision point (history, snapshot, offered choices) changes when the log is cut off or continues differently afterwards; only the record of which choice was taken may depend on what follows.",
     ["histories"], "all legal rounds and all points at which such a round can be cut off or continued differently",
     "A test that inspects one finished log cannot see that an earlier sample was altered by a later event; it takes comparing a log with its own prefixes.",
     [PX, ST] + AGENTS, [("snapshot taken at each decision point", PX), ("history index of each decision point", PX), ("truncation of the history per sample", AGENTS[0])],
     ["decision points of a log and of its prefixes"])

prop("C09", "Each snapshot shows the deciding player's own concealed hand",
     "At every decision point the snapshot given to the deciding player holds exactly that player's concealed tiles at that moment, by tile kind and with red fives marked: the hand including the drawn tile on an own turn, the hand after the call when discarding after a call, and the reacting player's own hand (never the discarder's) when reacting.",
     ["histories"], "all legal rounds and every decision point and reacting seat in them",
     "No test processes a log; a hand that is right at the moment of the snapshot can be changed by any later event.",
     [PX, ST, TU], [("hand bookkeeping per seat", PX), ("snapshot", ST)], ["snapshot hand of each decision point"])

prop("C10", "Unseen-tile counts are exact for every seat",
     "At every decision point the deciding player's count of unseen tiles equals, for each tile kind and each red five, the full set minus the player's own concealed tiles, all exposed meld tiles, all discards and all revealed dora indicators. The snapshot's count of all remaining tiles equals the full set minus the concealed tiles of all players, all exposed meld tiles, discards and revealed indicators. No tile is counted twice and no count is negative.",
     ["histories"], "all legal rounds, in particular ones with calls of every type, red fives and several dora indicators",
     "No test processes a log; the count is the result of dozens of increments and decrements that depend on who saw which tile when.",
     [PX, ST], [("per-seat remaining tile bookkeeping", PX)], ["snapshot unseen-tile vector"])

prop("C11", "Riichi, double riichi, ippatsu and concealment flags are right",
     "At every decision point each seat is shown in riichi exactly if its declaration was accepted, in double riichi exactly if that declaration was its first discard with no call made by anyone before, in the ippatsu window exactly from acceptance until its own next discard or any call, and as concealed exactly if it has made no open call.",
     ["histories"], "all legal rounds with riichi declarations, calls and closed kans in any order",
     "Flags depend on the order of calls, declarations and draws across several turns; no test covers them.",
     [PX, ST], [("riichi step handling", PX), ("ippatsu clearing", PX), ("first go-around counter", PX), ("open-call flag", PX)], ["snapshot flags"])

prop("C12", "Melds, dora indicators, discards and remaining draws are right",
     "At every decision point the snapshot lists each seat's melds in force (an added kan replaces its pon), all dora indicators revealed so far, the tile kinds each seat has discarded so far, and the number of draws left, which falls by one for each tile drawn and by nothing else.",
     ["histories"], "all legal rounds, in particular ones with several kans",
     "No test processes a log; kans change four of these facts at once, in an order that varies by kind of kan.",
     [PX, ST], [("meld list update", PX), ("indicator list", PX), ("discard flags", PX), ("remaining draw counter", PX)], ["snapshot table facts"])

prop("C13", "Calls offered on a discard are exactly the legal ones",
     "After each discard every other seat is offered exactly the calls it can legally make: pon with two and open kan with three matching concealed tiles, chi for the next seat only, each variant that spends or keeps a red five being a separate offer, offered once and describing the tiles, source seat and red five of that call. No call is offered to a seat in riichi or on the last discard of the round, and no open kan once four kans have been made.",
     ["inputs", "histories"], "all discards against all concealed hands of the other three seats, and all round histories that forbid calls",
     "No test covers offers; the legal set depends on the tile, the red fives and the counts in three hands.",
     [DE, PX], [("call enumeration by tile class", DE), ("collecting offers after a discard", PX)], ["offers at reaction decisions"])

prop("C14", "Riichi and kans offered on an own turn are exactly the legal ones",
     "After each draw riichi is offered exactly when the seat is concealed, not yet in riichi, can be tenpai after a discard, has at least 1000 points and at least four draws remain. Closed kans of four concealed copies and added kans to an own pon are offered once each, exactly when a replacement tile can be drawn and fewer than four kans were made; in riichi only a closed kan of the drawn tile that leaves the waits unchanged is offered.",
     ["inputs", "histories"], "all hands, melds, scores and wall lengths reachable in a round",
     "No test covers offers; they depend on hand shape, score, wall and riichi history at once.",
     [PX], [("riichi check", PX), ("closed and added kan checks", PX)], ["offers at own-turn decisions"])

prop("C15", "A win is offered exactly on a complete hand with a yaku",
     "Self-draw and discard wins are offered exactly when the tile completes the hand and the hand has at least one yaku under the rules of the log's server, taking into account seat and round wind, open or concealed melds, riichi, last tile, replacement tile, robbing an added kan and first-turn draws, and, for a discard, furiten. The winning tile's physical copy, red fives and dora never decide it.",
     ["inputs", "histories"], "all winning and nearly winning hands with any melds, winds and circumstances",
     "No test covers wins; the yaku rules are a large case analysis and the samples in the repository contain few wins.",
     [AG, PX], [("hand evaluation for discard wins and self-draws", AG), ("circumstances passed to the evaluation", PX)], ["win offers at own-turn and reaction decisions"])

prop("C16", "No discard win is offered in furiten",
     "A seat is not offered a win on a discard or an added kan while any tile that completes its hand is among its own earlier discards, while it has let a completing tile pass since its own last draw, or while in riichi it has ever let one pass. Otherwise furiten never blocks the offer.",
     ["histories"], "all rounds in which a waiting seat has discarded or passed a completing tile",
     "Furiten depends on every wait of the hand and on the discards of many earlier turns; no test covers it.",
     [AG, PX], [("furiten check before a discard win", AG), ("record of discarded kinds", PX)], ["win offers at reaction decisions"])

prop("C17", "The action actually taken is marked, and only that one",
     "For every decision point with offers, the offer that the log shows being taken (a call with the same use of red fives, a kan, a riichi declaration, a self-drawn or discard win, several seats winning on one tile) is marked as taken, for the seat that took it. Every other offer of the round is unmarked.",
     ["histories"], "all legal rounds; every offered choice and every taken one, whatever physical copies the log names",
     "Matching a logged action with an offer must work for every physical form of the action; no test does it for any.",
     [PX, DR, DE], [("marking of executed decisions", PX), ("canonical meld comparison", DR)], ["marks on offers"])

prop("C18", "Every sample's action mask and label match the decision",
     "For every model architecture, each discard becomes one sample whose mask allows exactly the tile kinds (and red fives) in hand and whose label is the discarded kind; each own turn with offers becomes one sample, and each reaction becomes one sample per seat with offers in turn order after the actor up to the first seat that acted. Those masks allow exactly pass and the offered actions, and the label is the action taken, or pass if none was.",
     ["histories", "configurations"], "all legal rounds, for each of the four architectures",
     "The tensor tests do not run in this tree and build their inputs by hand; label errors only show when every kind of action is taken.",
     AGENTS, [("sample builders for own turn, discard and reaction", AGENTS[3])], ["masks and labels of the training batches"])

prop("C19", "Sample inputs encode the visible state and history faithfully",
     "For every model architecture, each sample's history input is the visible history followed by empty padding, and its state input is an exact encoding of the deciding player's snapshot: hand, unseen tiles, discards (all seats, starting from the decider, for the seat-relative architecture; otherwise the decider's own), scores, dealer, dealer turns left, riichi, double riichi, ippatsu, concealment, draws left, deposits, repeats and rounds left. The seat-relative architecture also gets the deciding seat.",
     ["histories", "configurations"], "all legal rounds and directly generated snapshots, for each of the four architectures",
     "The tensor tests do not run in this tree; an encoding that drops or mixes a field still has the right shape.",
     AGENTS, [("snapshot to tensor conversion", AGENTS[3]), ("history truncation and padding", AGENTS[3])], ["input tensors of the training batches"])

prop("C20", "Batching neither loses, repeats nor mixes samples",
     "The batch built from several games is exactly the samples of each game's rounds, in order, with every sample keeping its own history, state, mask, label and seat. The result does not depend on how the games are grouped, and a game or round without decisions of some type contributes nothing for that type.",
     ["inputs", "configurations"], "all lists of games and rounds, including empty rounds and rounds lacking some decision type, for each of the four architectures",
     "No test batches more than one round; misalignment needs several rounds with different numbers of samples.",
     AGENTS, [("per-round building and concatenation", AGENTS[3])], ["training batches"])

prop("C21", "Predictions respect the mask and the loss is the label's cross-entropy",
     "For every model architecture and any parameters, an action outside the mask gets negligible probability, allowed actions always get finite scores, and the reported loss is the mean cross-entropy of the labels under those masked predictions. In evaluation mode a sample's prediction does not depend on the other samples of the batch or on their order, and limiting the number of samples yields the predictions of a subset of the samples, each still paired with its own label.",
     ["inputs", "configurations"], "generated batches of real and synthetic samples and random model parameters for each architecture",
     "No running test evaluates a model; cross-sample leakage needs comparing batches.",
     AGENTS, [("masking before the loss", AGENTS[3]), ("attention within a sample", AGENTS[3]), ("sub-sampling of batches", AGENTS[3])], ["scores and loss returned by a model"])

prop("C22", "The history encoder sees what each event says, and nothing in padding",
     "For every model architecture, before the attention layers two events are encoded differently at the same position whenever they differ in what they record (actor, event, tile, drawn-tile discard, call), and equally whenever they record the same; empty padding positions contribute nothing. An event's encoding also depends on its position.",
     ["inputs", "configurations"], "all pairs of valid history entries at any position, for each architecture and random embedding parameters",
     "No test looks inside the encoder; a mask that hides a field leaves all shapes and losses plausible.",
     AGENTS, [("event embeddings and their masks", AGENTS[3])], ["encoder output"])

prop("C23", "The seat-relative model is unchanged by rotating the seats",
     "For the seat-relative architecture, rotating all seats of the history together with the deciding seat leaves the encoding of the history unchanged, while rotating the deciding seat alone changes it whenever the history names a seat.",
     ["inputs"], "all histories, deciding seats, rotations and random parameters",
     "No test exercises this architecture; it is a relation between two runs.",
     [AGENTS[3]], [("relative seat computation in the encoder", AGENTS[3])], ["encoder output"])

prop("C24", "The data loader delivers every usable game exactly once",
     "One pass over a directory delivers every usable game log in it exactly once, in batches of at most the configured size of which only the last may be smaller and none is empty, with each game's decision points paired with its own history. Unusable files of any kind are skipped without ending the pass or the program, and after a reset a new pass delivers the same games again.",
     ["inputs", "fault_sequences"], "all mixes and orders of usable, refused, malformed and inconsistent files, batch sizes, and reset points",
     "No running test uses the loader; losing or repeating a game depends on where the bad files fall relative to batch boundaries.",
     [DL, PX], [("batch filling loop", DL), ("skipping of unusable files", DL), ("reset", DL)], ["batches of one or several passes"])

prop("C25", "Training resumes from the newest checkpoint of its own model",
     "Training a named model loads the checkpoint with the numerically highest iteration of exactly that model name, ignoring all other files, and continues with the next iteration number, or starts at iteration zero if there is none. Each finished iteration writes one checkpoint with its iteration number that holds the trained weights, consumes the training set of its turn completely, and leaves other models' checkpoints alone; an interrupted history of runs ends with the same set of checkpoints as an uninterrupted one.",
     ["histories", "crash_points", "configurations"], "all sets of files in the checkpoint directory, and all sequences of training runs of several models with interruptions between iterations",
     "No test covers training; picking a wrong checkpoint needs particular sets of file names.",
     [SL], [("checkpoint search", SL), ("training loop and checkpoint writing", SL)], ["checkpoint files", "training log", "loaded weights"])

prop("C26", "The shanten solver computes the true shanten number",
     "For every hand of 1, 4, 7, 10 or 13 tiles, or with one tile more, the solver's result is the minimal number of tile exchanges to tenpai over the standard form, and for hands without calls also seven pairs and thirteen orphans, with the missing tiles counted as complete melds; a complete hand gives -1. Marking red fives does not change the result and the hand passed in is left as it was.",
     ["inputs"], "all hands of those sizes, with or without red fives",
     "No test covers it, and wrong answers appear only on rare shapes (four copies, honour triplets, terminals).",
     [SH], [("recursive decomposition", SH), ("seven pairs and thirteen orphans", SH)], ["solver result"])

prop("C27", "Inconsistent logs never become samples",
     "A log in which a seat starts with other than thirteen distinct tiles, discards or exposes a tile it does not hold, draws a tile it already holds, draws twice without discarding, discards without having drawn or called, or declares a call when nothing can be called, is refused with an error instead of yielding samples.",
     ["inputs", "fault_sequences"], "every such corruption at every position of every legal round",
     "No test feeds a corrupted log.",
     [PX], [("consistency assertions in the event loop", PX)], ["exception raised by log processing"])

prop("C28", "Rounds and games are processed independently of each other",
     "The decision points and histories obtained for a round depend only on that round and the game type: processing a game gives the concatenation of what its rounds give alone, processing again gives the same result, and no game processed earlier in the same program, even one that was refused, has any influence.",
     ["histories", "inputs"], "all sequences of rounds and games, including refused and inconsistent ones in between",
     "No test processes two logs; state leaking from one round to the next needs a particular first round.",
     [PX, CO], [("per-round initialisation", PX), ("shared constants", CO)], ["decision points and histories"])

prop("C29", "Relabelling suits or seats relabels the samples and nothing else",
     "Swapping the three suits throughout a log, or shuffling which physical copies of a tile (red five apart) are used, changes the decision points and histories only by the same relabelling, and rotating the seats of a round together with its dealer and round number does likewise. Offers and taken actions correspond one to one under the relabelling.",
     ["inputs", "histories"], "all legal rounds and all suit permutations, copy permutations and seat rotations",
     "It relates two runs on two logs; the tests process none.",
     [PX, DR, DE, AG], [("tile index arithmetic", DR), ("call enumeration", DE)], ["decision points and histories"])

prop("C30", "The reported validation loss is the mean loss of a fixed set of games",
     "An estimate of the validation loss is the mean, over the batches of at least twenty validation games (all games if there are fewer) and their decision types, of the model's loss in evaluation mode on all decisions of the batch. Repeating it, at any later time and with any random seed, looks at the same games again, and without training in between gives the same value. It changes neither weights nor gradients, leaves the whole model in training mode and the data loader at its first game.",
     ["inputs", "histories"], "all validation sets with a usable game, batch sizes, architectures, weights, and sequences of estimates and training steps",
     "No test covers it; sub-sampling, dropout left on, or a loader left in mid-pass show only on particular set sizes or in the second estimate.",
     [SL, DL], [("estimate_loss", SL), ("reset", DL)], ["returned loss", "mode and weights of the model afterwards", "next pass of the data loader"])

prop("C31", "Data collection keeps and fetches exactly the games it should",
     "Filtering the raw archives keeps exactly those of the houou lobby (names starting with scc) and unpacks them without changing their content, deleting the other files of that directory and touching nothing else. Scraping requests the log of exactly the games that the unpacked pages link to, and stores each successful answer byte for byte under the game's identifier; a failed download stores nothing and does not stop the rest.",
     ["inputs", "fault_sequences"], "all sets of archive names and contents, pages with any text around the links, and all sequences of successful and failed answers",
     "No test runs the data scripts.",
     ["MahjongAI/data/filter_raw.sh", "MahjongAI/data/scrape_data.py"], [("shell filter", "MahjongAI/data/filter_raw.sh"), ("link extraction and download", "MahjongAI/data/scrape_data.py")], ["files in data/raw and data/processed", "requested addresses"])

prop("C32", "All of a model's parameters are saved and trained along the true slope",
     "A model restored from the saved parameters of another one of the same architecture makes the same predictions. Each parameter that influences the loss of a decision type gets a gradient from it, and moving any parameter tensor a little along its gradient changes the loss at the rate that the gradient states. Every layer and attention head of a model takes part in its losses.",
     ["inputs", "configurations"], "all games, architectures, layer counts and parameter values",
     "No test trains or restores a model; a part cut off from the gradient or left out of the checkpoint still predicts and still trains, only worse.",
     AGENTS, [("model definition", AGENTS[3]), ("decoder heads", AGENTS[3])], ["loss values", "gradients", "saved parameters"])

prop("C33", "Samples depend on the play, not on how the log is written",
     "Two log files that describe the same play yield the same decision points and histories, however they are written: order of attributes, white space, comments, way of closing tags, extra attributes, player names, dice, order of the dealt tiles, result details, and the file's name make no difference, nor does verbose output. Processing changes no file.",
     ["inputs"], "all legal games and all such rewritings",
     "No test processes two spellings of one log.",
     [PX], [("event loop and attribute parsing", PX), ("reading of the file", PX)], ["decision points and histories", "the log file afterwards"])

prop("C34", "A prediction uses every fact its decision sees, and nothing else",
     "Changing one fact of the position that belongs to a decision (a tile count of hand, unseen tiles or the deciding seat's river, a score, the dealer, remaining dealer turns, riichi, double riichi, ippatsu, closed hand, draws left, deposits, repeats, rounds left) changes the prediction for that decision and for no other; changing an entry of the history changes the predictions of the decisions after it and of no earlier ones. The seat-relative model uses the rivers of all seats.",
     ["inputs", "configurations"], "all games, decisions, facts, architectures and, up to coincidences, parameter values",
     "No test runs a model; a fact dropped between the sample tensors and the network costs strength, not correctness of form.",
     AGENTS, [("forward pass", AGENTS[3]), ("state network", AGENTS[3]), ("encoder", AGENTS[3])], ["predicted scores"])

prop("C35", "Training takes one scheduled step along each loss, at the current weights",
     "Within a training run, each decision type of each training batch causes exactly one AdamW update (PyTorch's default settings) of all the model's parameters, from the gradient of that loss alone, with the model in training mode. The learning rate is 1e-3 times a factor that rises linearly from 0 over the run's first 1000 updates and then falls along a half cosine to 0 at one million. The validation loss is estimated after the batch that begins each thousand games of a training set and at no other time, and moves no weights. Every loss a model yields for a batch is computed with the weights of that moment.",
     ["inputs", "histories"], "all training sets, batch sizes, numbers of decision types per batch, loss values and run lengths",
     "No test trains a model; left-over gradients, a skipped update or a wrong rate still train, only worse.",
     [SL, *AGENTS], [("training loop and schedule", SL), ("forward generator", AGENTS[3])], ["weights before and after each update", "losses yielded", "when the validation set is read"])

prop("C36", "The training program trains exactly the named model, or refuses",
     "Called with one of the nine model names and a number of iterations, the training program trains the architecture with the number of layers that belongs to the name for exactly that many iterations on the training sets of their turn, and adds nothing but their checkpoints and its log. Called with anything else (an unknown name, no whole number, too few or too many arguments) it fails, and neither trains nor writes a checkpoint. Games and older checkpoints stay as they are. Every message it prints with a time stamp is in its log file, in order.",
     ["inputs", "configurations"], "all argument lists, all sets of older checkpoints, all training sets",
     "No test runs the program; a name that trains another architecture, or an argument that is silently taken for another, shows only in the checkpoint.",
     [SL], [("command line", SL), ("train", SL), ("log_message", SL)], ["exit", "files written", "architecture of the checkpoints", "games trained on"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
