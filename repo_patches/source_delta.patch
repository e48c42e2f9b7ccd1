From ac5d87dac892fd9872ddbaa4335bcfc191b6cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 01/38] fix: give every decision point its own copy of the
 state

Snapshots shared the hand, unseen tiles, melds and concealment lists that
later events kept changing (and the discard and post turns reused the
snapshot of the draw), so training samples showed a later state.
---
 MahjongAI/process_xml.py | 76 +++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..f0d2548 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -109,6 +109,30 @@ def process(file_path: str, verbose: bool = False):
         acquired = None
         result_idx = None
 
+        def snapshot(player):
+            # state at this moment; copied, because the originals keep changing
+            return StateObject(
+                remaining_turns=remaining_tsumo,
+                hand_tensor=hand_tensors[player].copy(),
+                remaining_tiles=remaining_tiles.copy(),
+                remaining_tiles_pov=remaining_tiles_pov[player].copy(),
+                sutehai_tensors=sutehai_tensors.copy(),
+                is_menzen=is_menzen[:],
+                double_reaches=double_reaches[:],
+                reaches=reaches[:],
+                ippatsu=ippatsu[:],
+                melds=[nakis[:] for nakis in melds],
+                scores=scores[:],
+                kyotaku=kyotaku,
+                honba=honba,
+                dora=doras[:],
+                parent_tensor=parent_tensor,
+                rounds_remaining=rounds_remaining,
+                parent_rounds_remaining=parent_rounds_remaining,
+                remaining_tsumo=remaining_tsumo,
+                player=player,
+            )
+
         if verbose:
             print(f"Scores: {scores}")
             print(f"Parent: {parent}")
@@ -220,28 +244,6 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
-
                 if naki.from_who() != 0:
                     is_menzen[player] = 0
                 if sum(ippatsu):
@@ -287,7 +289,7 @@ def process(file_path: str, verbose: bool = False):
 
                     curr_halfturn = PostTurn(
                         player=player,
-                        stateObj=stateObj,
+                        stateObj=snapshot(player),
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
                     )
@@ -384,31 +386,9 @@ def process(file_path: str, verbose: bool = False):
                     naki_decisions,
                 ]
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
-
                 halfturn = DuringTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=snapshot(player),
                     decisions=during_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
@@ -434,7 +414,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = DiscardTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=snapshot(player),
                     discarded_tile=tile,
                     encoding_idx=len(encoding_tokens),
                 )
@@ -493,7 +473,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = PostTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=snapshot(player),
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
-- 
2.43.0


From 8a0cb18e0c481f72beb4b5fc3f54a4f8929b6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 02/38] fix: show reacting players their own state

Reaction samples carried the discarder's snapshot, so the model was
trained on another player's concealed hand.
---
 MahjongAI/agents/transformer.py              | 8 ++++----
 MahjongAI/agents/transformer_conv.py         | 8 ++++----
 MahjongAI/agents/transformer_conv_large.py   | 8 ++++----
 MahjongAI/agents/transformer_conv_ordered.py | 8 ++++----
 MahjongAI/process_xml.py                     | 4 ++--
 MahjongAI/turn.py                            | 5 +++--
 6 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..b75d561 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,9 +944,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -988,7 +985,10 @@ class TransformerTensorProcessor:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
                 X_embeddings.append(masked_encoding_token_tensor)
-                state_obj_tensors.append((x1, x2, x3))
+                # state from the view of the reacting player
+                state_obj_tensors.append(
+                    self._convert_state_obj_to_tensors(turn.stateObjs[player_idx])
+                )
                 filter_tensors.append(decision_mask)
                 y.append(result)
 
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..f53b8a1 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -967,7 +964,10 @@ class TransformerTensorProcessor:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
                 X_embeddings.append(masked_encoding_token_tensor)
-                state_obj_tensors.append((x1, x2, x3))
+                # state from the view of the reacting player
+                state_obj_tensors.append(
+                    self._convert_state_obj_to_tensors(turn.stateObjs[player_idx])
+                )
                 filter_tensors.append(decision_mask)
                 y.append(result)
 
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..e7df1b7 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -967,7 +964,10 @@ class TransformerTensorProcessor:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
                 X_embeddings.append(masked_encoding_token_tensor)
-                state_obj_tensors.append((x1, x2, x3))
+                # state from the view of the reacting player
+                state_obj_tensors.append(
+                    self._convert_state_obj_to_tensors(turn.stateObjs[player_idx])
+                )
                 filter_tensors.append(decision_mask)
                 y.append(result)
 
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..0355af4 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1101,7 +1098,10 @@ class TransformerTensorProcessor:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
                 X_embeddings.append(masked_encoding_token_tensor)
-                state_obj_tensors.append((x1, x2, x3))
+                # state from the view of the reacting player
+                state_obj_tensors.append(
+                    self._convert_state_obj_to_tensors(turn.stateObjs[player_idx])
+                )
                 filter_tensors.append(decision_mask)
                 y.append(result)
                 player_tensor.append(player_idx)
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index f0d2548..0191eab 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -289,7 +289,7 @@ def process(file_path: str, verbose: bool = False):
 
                     curr_halfturn = PostTurn(
                         player=player,
-                        stateObj=snapshot(player),
+                        stateObjs=[snapshot(p) for p in range(4)],
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
                     )
@@ -473,7 +473,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = PostTurn(
                     player=player,
-                    stateObj=snapshot(player),
+                    stateObjs=[snapshot(p) for p in range(4)],
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..c0b9dba 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -61,11 +61,12 @@ class PostTurn(HalfTurn):
     def __init__(
         self,
         player: int,
-        stateObj: StateObject,
+        stateObjs: List[StateObject],  # one per seat, each from that seat's view
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
     ):
-        super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
+        super().__init__(player, HalfTurn.POST, stateObjs[player], encoding_idx)
+        self.stateObjs = stateObjs
         self.decisions = decisions
 
     def __repr__(self):
-- 
2.43.0


From 38b76adf7c530fa1cc41ac608e6da90011c451df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 03/38] fix: include the discard in the history of the
 reactions to it

The history index of a reaction was taken before the discard was
recorded, so the samples did not know the tile being reacted to.
---
 MahjongAI/process_xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 0191eab..abc5951 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -471,6 +471,10 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 half_turn = PostTurn(
                     player=player,
                     stateObjs=[snapshot(p) for p in range(4)],
@@ -480,9 +484,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From f20f0153530912d501c0f9283c9b61e04906d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 04/38] fix: record discards with the discard event type

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index abc5951..9cade23 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -576,7 +576,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 18607e2b17fd6dda3228288729e89ba80271e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/38] fix: count a red five shown as new dora indicator as
 seen

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 9cade23..70c8840 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -148,13 +148,13 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
                 remaining_tsumo -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 942162f70037fb6defc0075bdafe632734f04e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 06/38] fix: only a draw reduces the number of remaining draws

Each kan was counted three times: the call, the new indicator and the
replacement draw.
---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 70c8840..c8fc3f0 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -153,7 +153,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
@@ -223,9 +222,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 28dda3f3c41b5dc374997f89984a3c7da4b518f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 07/38] fix: end ippatsu at the next own discard or any call

It was cleared by anybody's next draw, and set already by the
declaration before the riichi was accepted.
---
 MahjongAI/process_xml.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c8fc3f0..c276b56 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -179,9 +179,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches = double_reaches[:]
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
-
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -320,10 +319,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -391,8 +386,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -416,6 +409,10 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
 
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 hands[player, tile] = 0.0
                 hand_tensors[player][tile_idx] -= 1.0
                 hand_tensors_full[player][tile_idx] -= 1.0
-- 
2.43.0


From 70399d5b09e70dd5ce9d651f14e022af68d118de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 08/38] fix: any call ends the first go-around

The turn counter was advanced by a value that could be zero (and mixed an
absolute with a relative seat), so double riichi and first-turn wins were
wrong after calls.
---
 MahjongAI/process_xml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c276b56..ad35621 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -188,8 +188,7 @@ def process(file_path: str, verbose: bool = False):
 
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
-                from_who = naki.from_who()
-                cycles += (player - from_who) % 4
+                cycles += 4  # any call ends the first go-around
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
-- 
2.43.0


From 09e705340b8a2e7d72cbd6c8b9d32367b3c016f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 09/38] fix: canonical codes of pon and added kan ignore the
 physical copies

Without a red five a pon kept the claimed copy, and an added kan kept the
copy and seat of its pon, so an executed call did not match its offer.
---
 MahjongAI/draw.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..bf55716 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,13 +91,20 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
+        _, _, which, red, exposed, _ = self.pattern_kakan()
+        # which seat the pon was claimed from and how makes no difference
+        code = self.naki_code & ~(0x60 | 0x3)
+        code -= which << 9
+        if not red:
+            code |= 0x20
+        elif exposed[0] % 4 != 0:  # red was in the exposed pon
             code |= 0x20
+            code += 1 << 9
         return code
 
     def _clean_minkan(self):
-- 
2.43.0


From a2ccc1963e150852912cb8c671772c1356d848c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 10/38] fix: give every call that spends a red five its own
 action slot

The slots of chi with a red five from the hand collided between colours
and with other chi, and a pon spending the red five usually shared the
slot of the pon that keeps it.
---
 MahjongAI/draw.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index bf55716..33fbf40 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -251,8 +251,13 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
+                # six slots per color: (number, which) = (2, 0), (2, 1), (3, 0), (3, 2), (4, 1), (4, 2)
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + (which - (which > 4 - number))
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
@@ -261,7 +266,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:  # red comes from the hand
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From 9fef5eec07b9dfb6ccec481d383275382bb9fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 11/38] fix: offer the right chi on a 4 or 6 when holding the
 red five

The middle-tile chi was built with another claimed position.
---
 MahjongAI/decision.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..71836ed 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -218,16 +218,13 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
                     if black_fives > 0:
                         naki = Naki.from_chi_info(
-                            tile_idx // 9,
-                            2 if is_four else 4,
-                            0 if is_four else 2,
-                            False,
+                            tile_idx // 9, 2 if is_four else 4, 1, False
                         )
                         assert naki.is_chi()
                         decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From b98759546f78d9bd64733c9b13f50b1e4a961a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 12/38] fix: offer every legal pon

A seat holding three copies can still pon, with or without its red five,
and a pon claiming the red five is described by position 0.
---
 MahjongAI/decision.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 71836ed..c080305 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -254,7 +254,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -297,19 +297,17 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if black_fives >= 1.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+            if hand_tensor[tile_idx] >= 2.0:
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
@@ -328,7 +326,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 05157a66fd6eefe24a075ccd87d9a1d4b210bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 13/38] fix: describe offered open kans as executed ones are

The position argument is 0 only when the red five is claimed; built the
other way round, an executed open kan never matched its offer.
---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index c080305..df9f46f 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -260,7 +260,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -312,7 +312,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -331,7 +331,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 890237ca747b4246415d21aafab4eeb33d4399a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 14/38] fix: offer no call in riichi or on the last discard,
 and no fifth kan

---
 MahjongAI/process_xml.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ad35621..e300f38 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -2,6 +2,7 @@ import sys
 import xml.etree.ElementTree as ET
 import numpy as np
 import copy
+from typing import List
 from mahjong.shanten import Shanten
 
 sys.path.append("..")
@@ -461,7 +462,14 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
-                    post_decisions[p][DECISION_NAKI_IDX] = decision_lst
+                    # no calls in riichi or on the last discard, no fifth kan
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
+                    post_decisions[p][DECISION_NAKI_IDX] = [
+                        decision
+                        for decision in decision_lst
+                        if not (decision.naki.is_minkan() and n_kans(melds) >= 4)
+                    ]
 
                 encoding_tokens.append(
                     discard2idx(player, tile_idx[0], tile == acquired)
@@ -564,6 +572,12 @@ def _get_rounds(file_path: str):
     return gameinfo, rounds
 
 
+def n_kans(melds: List[List[Naki]]):
+    return sum(
+        not (naki.is_chi() or naki.is_pon()) for nakis in melds for naki in nakis
+    )
+
+
 def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
-- 
2.43.0


From 431e1f76414b484794171818613f2bca11f22911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 15/38] fix: count the other fives of the hand when offering
 chi with a red five

The number of copies of the discarded tile was used instead, so the chi
keeping the red five was missing (or offered without a second five).
---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index df9f46f..c644b54 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
-- 
2.43.0


From 5748c0797edb4b00eff708ca3da19f27ad3032dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 16/38] fix: offer the added kan when its tile is in the hand

The hand was looked up by physical tile with an index of tile kinds, and
the role of the red five was left open.
---
 MahjongAI/process_xml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e300f38..9b2d4f8 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -360,13 +360,19 @@ def process(file_path: str, verbose: bool = False):
                 for meld in melds[player]:
                     if meld.is_pon():
                         color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        if hand_tensors[player][9 * color + number]:
+                            # the red five is in the pon unless it is in the hand
+                            red_in_pon = (
+                                number == 4
+                                and color < 3
+                                and not hand_tensors[player][34 + color]
+                            )
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(red_in_pon)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 73cf84d1e645bb2d7cc1898ab2c746c5a0db37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 17/38] fix: offer riichi only with 1000 points and four draws
 left

---
 MahjongAI/process_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 9b2d4f8..680cbb4 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -341,7 +341,12 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if reach is possible
                 reach_decisions = []
-                if not reaches[player] and is_menzen[player]:
+                if (
+                    not reaches[player]
+                    and is_menzen[player]
+                    and scores[player] >= 10
+                    and remaining_tsumo >= 4
+                ):
                     shanten = shanten_solver.calculate_shanten(
                         hand_tensors[player][:34]
                     )
-- 
2.43.0


From f002ed8b38ddec644245e6b3b51718ed45556de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 18/38] fix: offer closed and added kans only when they are
 allowed

No replacement tile left, four kans made, or in riichi a kan that is not
of the drawn tile or changes the waits.
---
 MahjongAI/process_xml.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 680cbb4..c233a19 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -355,15 +355,22 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if naki is possible
                 naki_decisions = []
+                can_kan = remaining_tsumo > 0 and n_kans(melds) < 4
                 # check if ankan is possible
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
+                    if not can_kan:
+                        break
+                    if reaches[player] and (
+                        i != tile_idx[0] or ankan_changes_waits(hand_tensors[player], i)
+                    ):
+                        continue
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
 
                 # check if kakan is possible
                 for meld in melds[player]:
-                    if meld.is_pon():
+                    if can_kan and meld.is_pon():
                         color, number, *_ = meld.pattern_pon()
                         if hand_tensors[player][9 * color + number]:
                             # the red five is in the pon unless it is in the hand
@@ -589,6 +596,25 @@ def n_kans(melds: List[List[Naki]]):
     )
 
 
+def waits(hand_tensor: np.ndarray):
+    result = []
+    for i in range(34):
+        if hand_tensor[i] < 4:
+            hand = hand_tensor[:34].copy()
+            hand[i] += 1
+            if shanten_solver.calculate_shanten(hand) == Shanten.AGARI_STATE:
+                result.append(i)
+    return result
+
+
+def ankan_changes_waits(hand_tensor: np.ndarray, tile_idx: int):
+    # tile_idx is the tile just drawn
+    before, after = hand_tensor.copy(), hand_tensor.copy()
+    before[tile_idx] -= 1
+    after[tile_idx] -= 4
+    return waits(before) != waits(after)
+
+
 def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
-- 
2.43.0


From a83392dae0332415f123a91085bc6846030d9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 19/38] fix: evaluate wins with the seat's own wind and the
 round's wind

Both winds were passed as 0..3 where the hand calculator expects tile
numbers, and the seat wind was the dealer's.
---
 MahjongAI/gameinfo.py    |  7 +++++--
 MahjongAI/process_xml.py |  6 +++---
 MahjongAI/utils/agari.py | 10 +++++-----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/MahjongAI/gameinfo.py b/MahjongAI/gameinfo.py
index 3519ad5..b142d78 100644
--- a/MahjongAI/gameinfo.py
+++ b/MahjongAI/gameinfo.py
@@ -1,3 +1,6 @@
+from mahjong.constants import EAST
+
+
 class GameInfo:
     def __init__(self, go: int = 161):
         self.go = go
@@ -38,8 +41,8 @@ class RoundInfo:
         self.parent_rounds_remaining = [
             (self.remaining_rounds + i) // 4 for i in range(4)
         ]
-        self.player_wind = curr_round % 4
-        self.round_wind = curr_round // 4
+        self.player_winds = [EAST + (i - curr_round) % 4 for i in range(4)]
+        self.round_wind = EAST + curr_round // 4
 
     def __repr__(self):
         return f"RoundInfo: gameinfo={self.gameinfo}, remaining_rounds={self.remaining_rounds}, parent_rounds_remaining={self.parent_rounds_remaining}"
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c233a19..d01c5f6 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -270,7 +270,7 @@ def process(file_path: str, verbose: bool = False):
                         is_haitei=False,
                         double_reaches=double_reaches,
                         is_renhou=[False] * 4,
-                        player_wind=roundinfo.player_wind,
+                        player_winds=roundinfo.player_winds,
                         round_wind=roundinfo.round_wind,
                         kyotaku=kyotaku,
                         honba=honba,
@@ -333,7 +333,7 @@ def process(file_path: str, verbose: bool = False):
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
-                    player_wind=roundinfo.player_wind,
+                    player_wind=roundinfo.player_winds[player],
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
                     honba=honba,
@@ -462,7 +462,7 @@ def process(file_path: str, verbose: bool = False):
                         (cycles <= 3 and player >= cycles and min(is_menzen))
                         for _ in range(4)
                     ],
-                    player_wind=roundinfo.player_wind,
+                    player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
                     honba=honba,
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..f716063 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -50,7 +50,7 @@ def evaluate_ron(
     is_haitei: bool,
     double_reaches: List[int],
     is_renhou: List[bool],
-    player_wind: int,
+    player_winds: List[int],
     round_wind: int,
     kyotaku: int,
     honba: int,
@@ -128,7 +128,7 @@ def evaluate_ron(
             is_houtei=False,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
+            player_wind=player_winds[p],
             round_wind=round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
@@ -455,8 +455,8 @@ if __name__ == "__main__":
     is_haitei = False
     double_reaches = [0, 0, 0, 0]
     is_renhou = [False] * 4
-    player_wind = 2
-    round_wind = 0
+    player_winds = [29, 30, 27, 28]
+    round_wind = 27
     kyotaku = 1
     honba = 0
 
@@ -473,7 +473,7 @@ if __name__ == "__main__":
         is_haitei,
         double_reaches,
         is_renhou,
-        player_wind,
+        player_winds,
         round_wind,
         kyotaku,
         honba,
-- 
2.43.0


From ee0d84ebcd4b8c32b35c1cde51cb7d1d5fcb3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 20/38] fix: find wins whatever physical copy of the tile
 completes the hand

The hand calculator refuses a winning tile that is not in the hand, and
the hand is rebuilt from counts, so most wins were missed.
---
 MahjongAI/utils/agari.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index f716063..84edd27 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -138,7 +138,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=same_kind(tiles, discarded_tile),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -244,7 +244,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=same_kind(tiles, tsumo_tile),
         melds=melds,
         dora_indicators=doras,
         config=config,
@@ -259,6 +259,11 @@ def evaluate_tsumo(
     return decisions
 
 
+def same_kind(tiles, tile: int):
+    # the tile of the same kind in tiles, which are rebuilt from counts
+    return next(t for t in tiles if t // 4 == tile // 4)
+
+
 def hand_tensor2strs(hand_tensor):
     tile_strs = []
 
-- 
2.43.0


From 545ef7e799acbbfd1e5578d182dee1b9cfba1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 21/38] fix: find wins in hands with all four fives of a suit

With red fives enabled the hand calculator's parser counts a fourth
ordinary five as the next tile.
---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 84edd27..35c7a6e 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -74,7 +74,7 @@ def evaluate_ron(
         hand_tensor[discarded_tile_idx] -= 1
 
         tiles = TilesConverter.string_to_136_array(
-            man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
+            man=man, pin=pin, sou=sou, honors=honors
         )
 
         melds = []
@@ -178,7 +178,7 @@ def evaluate_tsumo(
     man, pin, sou, honors = hand_tensor2strs(hand_tensor)
 
     tiles = TilesConverter.string_to_136_array(
-        man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
+        man=man, pin=pin, sou=sou, honors=honors
     )
     nakis = naki_list[player]
 
-- 
2.43.0


From 52eca8c04a7679a49b543b9cb95b85f65b0fa220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 22/38] fix: recognise wins on the last discard and on a
 replacement tile

A win on the last discard was evaluated as one on the last draw, which
the hand calculator refuses, and replacement draws were never marked.
---
 MahjongAI/process_xml.py | 12 ++++++++----
 MahjongAI/utils/agari.py | 10 +++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d01c5f6..5952761 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         is_menzen = [1] * 4
         curr_halfturn = None
         cycles = 0
+        is_rinshan = False
         acquired = None
         result_idx = None
 
@@ -267,7 +268,7 @@ def process(file_path: str, verbose: bool = False):
                         reaches=reaches,
                         ippatsu=ippatsu,
                         is_chankan=True,
-                        is_haitei=False,
+                        is_houtei=False,
                         double_reaches=double_reaches,
                         is_renhou=[False] * 4,
                         player_winds=roundinfo.player_winds,
@@ -300,6 +301,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    is_rinshan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -328,8 +330,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not is_rinshan),
+                    is_rinshan=is_rinshan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
@@ -339,6 +341,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                is_rinshan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if (
@@ -456,7 +460,7 @@ def process(file_path: str, verbose: bool = False):
                     reaches=reaches,
                     ippatsu=ippatsu,
                     is_chankan=False,
-                    is_haitei=(remaining_tsumo == 0),
+                    is_houtei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
                     is_renhou=[
                         (cycles <= 3 and player >= cycles and min(is_menzen))
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 35c7a6e..f637ddb 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -47,7 +47,7 @@ def evaluate_ron(
     reaches: List[int],
     ippatsu: List[int],
     is_chankan: bool,
-    is_haitei: bool,
+    is_houtei: bool,
     double_reaches: List[int],
     is_renhou: List[bool],
     player_winds: List[int],
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_houtei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_winds[p],
@@ -457,7 +457,7 @@ if __name__ == "__main__":
     reaches = [0, 0, 1, 1]
     ippatsu = [0, 0, 0, 0]
     is_chankan = False
-    is_haitei = False
+    is_houtei = False
     double_reaches = [0, 0, 0, 0]
     is_renhou = [False] * 4
     player_winds = [29, 30, 27, 28]
@@ -475,7 +475,7 @@ if __name__ == "__main__":
         reaches,
         ippatsu,
         is_chankan,
-        is_haitei,
+        is_houtei,
         double_reaches,
         is_renhou,
         player_winds,
-- 
2.43.0


From 7c375b12b95f90fb3a748bbe568c835e34198c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 23/38] fix: do not count first-turn discard wins as a yaku

The log server's rules have no renhou, and the condition compared a seat
number with the number of draws.
---
 MahjongAI/process_xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5952761..94ebd14 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -462,10 +462,7 @@ def process(file_path: str, verbose: bool = False):
                     is_chankan=False,
                     is_houtei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
-                    is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
-                    ],
+                    is_renhou=[False] * 4,
                     player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From 297e220a8e1e1257fd6449fbbae029287615c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 24/38] fix: apply furiten to all waits, passed tiles and
 riichi

---
 MahjongAI/process_xml.py | 63 +++++++++++++++++++++++++++++++++-------
 MahjongAI/utils/agari.py |  9 +++---
 2 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 94ebd14..1ba28e0 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -108,6 +108,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         is_rinshan = False
+        missed_agari = [False] * 4  # let a completing tile pass
         acquired = None
         result_idx = None
 
@@ -258,11 +259,18 @@ def process(file_path: str, verbose: bool = False):
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
+                    furiten, missed_agari = update_furiten(
+                        player,
+                        hand_tensors,
+                        TILE2IDX[exposed[0]][0],
+                        sutehai_tensors,
+                        missed_agari,
+                    )
                     decisions = evaluate_ron(
                         player=player,
                         hand_tensors_full=hand_tensors_full,
                         naki_list=melds,
-                        sutehai_tensor=sutehai_tensors,
+                        furiten=furiten,
                         discarded_tile=exposed[0],
                         doras=doras,
                         reaches=reaches,
@@ -321,6 +329,10 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
+                # passing a completing tile counts until the next draw, in riichi forever
+                if not reaches[player]:
+                    missed_agari[player] = False
+
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -450,11 +462,14 @@ def process(file_path: str, verbose: bool = False):
                 # post_decisions will contain three lists of different decisions: ron, pon/kan, chi
                 post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
+                furiten, missed_agari = update_furiten(
+                    player, hand_tensors, tile_idx[0], sutehai_tensors, missed_agari
+                )
                 rons = evaluate_ron(
                     player=player,
                     hand_tensors_full=hand_tensors_full,
                     naki_list=melds,
-                    sutehai_tensor=sutehai_tensors,
+                    furiten=furiten,
                     discarded_tile=tile,
                     doras=doras,
                     reaches=reaches,
@@ -597,15 +612,18 @@ def n_kans(melds: List[List[Naki]]):
     )
 
 
+def is_complete_with(hand_tensor: np.ndarray, tile_idx: int):
+    hand = hand_tensor[:34].copy()
+    hand[tile_idx] += 1
+    return shanten_solver.calculate_shanten(hand) == Shanten.AGARI_STATE
+
+
 def waits(hand_tensor: np.ndarray):
-    result = []
-    for i in range(34):
-        if hand_tensor[i] < 4:
-            hand = hand_tensor[:34].copy()
-            hand[i] += 1
-            if shanten_solver.calculate_shanten(hand) == Shanten.AGARI_STATE:
-                result.append(i)
-    return result
+    return [
+        i
+        for i in range(34)
+        if hand_tensor[i] < 4 and is_complete_with(hand_tensor, i)
+    ]
 
 
 def ankan_changes_waits(hand_tensor: np.ndarray, tile_idx: int):
@@ -616,6 +634,31 @@ def ankan_changes_waits(hand_tensor: np.ndarray, tile_idx: int):
     return waits(before) != waits(after)
 
 
+def update_furiten(
+    player: int,
+    hand_tensors: List[np.ndarray],
+    tile_idx: int,
+    sutehai_tensors: np.ndarray,
+    missed_agari: List[bool],
+):
+    """
+    Returns who may not ron the tile, and who has let a completing tile pass after it
+    """
+    furiten = [False] * 4
+    missed_agari_after = missed_agari[:]
+
+    for p, hand_tensor in enumerate(hand_tensors):
+        if p == player:
+            continue
+        if is_complete_with(hand_tensor, tile_idx):
+            furiten[p] = missed_agari[p] or any(
+                sutehai_tensors[p, i] for i in waits(hand_tensor)
+            )
+            missed_agari_after[p] = True
+
+    return furiten, missed_agari_after
+
+
 def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index f637ddb..c1fe511 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -41,7 +41,7 @@ def evaluate_ron(
     player,
     hand_tensors_full: List[np.ndarray],
     naki_list: List[List[Naki]],
-    sutehai_tensor: np.ndarray,
+    furiten: List[bool],
     discarded_tile: int,
     doras: List[int],
     reaches: List[int],
@@ -64,7 +64,7 @@ def evaluate_ron(
             continue
 
         # check for furiten
-        if sutehai_tensor[p, discarded_tile_idx]:
+        if furiten[p]:
             if verbose:
                 print(f"Player {p} is furiten")
             continue
@@ -450,8 +450,7 @@ if __name__ == "__main__":
         ),
     ]
     naki_list = [[], [], [], []]
-    sutehai_tensor = np.zeros((4, 37))
-    sutehai_tensor[3, 7] = 1  # furiten
+    furiten = [False, False, False, True]
     discarded_tile = 28
     doras = [50]
     reaches = [0, 0, 1, 1]
@@ -469,7 +468,7 @@ if __name__ == "__main__":
         2,
         hand_tensors_full,
         naki_list,
-        sutehai_tensor,
+        furiten,
         discarded_tile,
         doras,
         reaches,
-- 
2.43.0


From 45cc3dceb5aab8da4f3a859be1c432b1bfc4cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 25/38] fix: mark won decisions as executed

---
 MahjongAI/process_xml.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1ba28e0..812073f 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -537,7 +537,17 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+                # change executed to True
+                player = int(event["attr"]["who"])
+                won_halfturn = halfturns[-1]
+                agari_decisions = []
+                if player == int(event["attr"]["fromWho"]):
+                    assert isinstance(won_halfturn, DuringTurn)
+                    agari_decisions = won_halfturn.decisions[DECISION_AGARI_IDX]
+                elif isinstance(won_halfturn, PostTurn):
+                    agari_decisions = won_halfturn.decisions[player][DECISION_AGARI_IDX]
+                for decision in agari_decisions:
+                    decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From f2d1a6c646f6aae9b2a12a227ded1496c1a0459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 26/38] fix: label of an own-turn sample is the action taken

---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index b75d561..22c3a24 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index f53b8a1..c1abaaf 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index e7df1b7..b6d46cd 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 0355af4..be60040 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From a9759a512b0142ed4c4a92bd42b495b12c244a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 27/38] fix: batch games without any round

---
 MahjongAI/agents/transformer.py            | 6 ++++++
 MahjongAI/agents/transformer_conv.py       | 6 ++++++
 MahjongAI/agents/transformer_conv_large.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 22c3a24..f3951b5 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -550,6 +550,12 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:  # no rounds at all
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index c1abaaf..6eebfcb 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -555,6 +555,12 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:  # no rounds at all
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index b6d46cd..08c4c71 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -555,6 +555,12 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:  # no rounds at all
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
-- 
2.43.0


From 31c43c8aebe1dea3050e34e866167445a512a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 28/38] fix: mask the event embeddings of the history encoders
 the right way round

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index f3951b5..9ef731f 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 6eebfcb..386d6ac 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 08c4c71..53c81ee 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From 322f3eaf54dc1db262e89f0760b0b31e8bded017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 29/38] fix: skip inconsistent logs instead of ending the
 program

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From a844e41cb14395fa34dc770f33c012e6f5135c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 30/38] fix: yield no empty batch at the end of a pass

---
 MahjongAI/utils/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..66c0f15 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,9 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:  # none of the remaining files was usable
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From d03c3dd74bd94a7bfe3ddbdc07154dc89505cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 31/38] fix: take only files named exactly like a checkpoint
 for one

---
 MahjongAI/supervised_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..8d9e119 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -31,8 +31,8 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     Returns a tuple of (latest_iter, checkpoint_path).
     If no checkpoint is found, returns (0, None).
     """
-    pattern = os.path.join(checkpoint_dir, f"model_{model_name}_checkpoint_iter_*.pt")
-    checkpoint_files = glob.glob(pattern)
+    pattern = f"model_{glob.escape(model_name)}_checkpoint_iter_*.pt"
+    checkpoint_files = glob.glob(os.path.join(glob.escape(checkpoint_dir), pattern))
     max_iter = -1
     latest_checkpoint = None
 
@@ -40,7 +40,7 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     regex = rf"model_{re.escape(model_name)}_checkpoint_iter_(\d+)\.pt"
 
     for file in checkpoint_files:
-        match = re.search(regex, file)
+        match = re.fullmatch(regex, os.path.basename(file))
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From 74ff60f465a10d1ac4515f577a995f7b0be63b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 32/38] fix: save checkpoints atomically

---
 MahjongAI/supervised_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 8d9e119..38b59a7 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # an interruption must not leave half a checkpoint under the final name
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From d59f7d82e9097e7491cf9efab58c6a8526b52568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 33/38] fix: shanten of hands with marked red fives

---
 MahjongAI/utils/shanten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..ac9abc8 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -8,7 +8,7 @@ from MahjongAI.utils.constants import YAOCHU_TENSOR
 
 class ShantenSolver:
     def _init(self, hand_tensor: np.ndarray):
-        self.hand_tensor = hand_tensor
+        self.hand_tensor = hand_tensor[:34]  # without the red five markers
         self.n_melds = (14 - self.hand_tensor.sum()) // 3
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
@@ -135,7 +135,7 @@ class ShantenSolver:
         self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
 
     def solve_kokushi(self):
-        yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
+        yaochu_arr = self.hand_tensor * YAOCHU_TENSOR[:34]
         self.best_shanten = min(
             self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
         )
-- 
2.43.0


From 2c731c25c6dd762bd86326a394da86d01a28d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 34/38] fix: seven pairs and thirteen orphans only without
 calls

---
 MahjongAI/utils/shanten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index ac9abc8..1638a6e 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -142,8 +142,9 @@ class ShantenSolver:
 
     def solve(self):
         self.solve_normal()
-        self.solve_chitoitsu()
-        self.solve_kokushi()
+        if self.n_melds == 0:
+            self.solve_chitoitsu()
+            self.solve_kokushi()
 
         return self.best_shanten
 
-- 
2.43.0


From 4401914ad94f82c1791e2ee9b0f04695c9aeaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 35/38] fix: seven pairs need seven different tiles

---
 MahjongAI/utils/shanten.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 1638a6e..3ce5ac8 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -132,7 +132,11 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        n_pairs = sum(self.hand_tensor >= 2.0)
+        n_kinds = sum(self.hand_tensor >= 1.0)
+        self.best_shanten = min(
+            self.best_shanten, 6 - n_pairs + max(0, 7 - n_kinds)
+        )
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR[:34]
-- 
2.43.0


From af6c7f930d0efb642acccc46951284496ce8f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 36/38] fix: count one pair in thirteen orphans

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 3ce5ac8..9808045 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -141,7 +141,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR[:34]
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From 39d8394c17f732768da557407e428baaad2b1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 37/38] fix: use three equal tiles in runs only, too

---
 MahjongAI/utils/shanten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 9808045..f1fefeb 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -121,6 +121,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0


From 75a981f90acd0f9b603e62f25cb5c4c85cc942af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 38/38] fix: nothing but a sequence can be made with the fourth
 copy of a triplet

---
 MahjongAI/utils/shanten.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index f1fefeb..4a8f0b8 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -13,9 +13,9 @@ class ShantenSolver:
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-        self.n_kuttsuki = 0
-        self.best_shanten = 14
+        self.n_kuttsuki = sum(self.hand_tensor[27:] == 1.0)
         self.tune = 0
+        self.best_shanten = 14
 
     def add_shuntsu(self, idx: int):
         self.hand_tensor[idx : idx + 3] -= 1
@@ -76,8 +76,15 @@ class ShantenSolver:
             potential_mentsu = max(0, self.n_toitsu - 1) + self.n_taatsu
             if potential_mentsu + self.n_mentsu > 4:
                 shanten += potential_mentsu + self.n_mentsu - 4
-            if self.tune and not self.n_toitsu:
-                shanten += 1
+            else:
+                # tiles left to build on: a fourth copy can start a sequence, not a pair
+                n_starts = self.n_kuttsuki
+                if not self.n_toitsu:
+                    if n_starts > self.tune:
+                        n_starts -= 1
+                    else:
+                        shanten += 1
+                shanten += max(0, 4 - self.n_mentsu - potential_mentsu - n_starts)
             self.best_shanten = min(self.best_shanten, shanten)
             return
 
@@ -105,7 +112,6 @@ class ShantenSolver:
         if self.hand_tensor[idx] == 4:
             self.add_koutsu(idx)
             process_shuntsu(idx, tune=True)
-            self.solve_normal(idx + 1)
             self.remove_koutsu(idx)
 
             self.add_toitsu(idx)
-- 
2.43.0

