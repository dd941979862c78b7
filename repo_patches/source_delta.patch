From 4b6d0d815b34b72d76d79d7aba42fba1be09ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 01/20] fix: put the form factors of each room back at the
 positions of its boundaries

---
 heat_load_calc/core/shape_factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..5e07941 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,11 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 室ごとに求めた値を、その室に属する境界の位置に戻す。（境界は室の順に並んでいるとは限らない。）
+    f_js = np.zeros(a_srf_js.size, dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From 8874fd16bb7b888c540d07a1e805855787e66397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 02/20] fix: keep the full precision of 1 - temperature
 difference coefficient for the rear surface weight

---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 255bb5561813f3ca9bcee2f76a0707564d5ea315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 03/20] fix: read the radiative cooling capacity where the
 house file has it, and accept rooms without convective cooling

---
 heat_load_calc/core/heat_exchanger.py      |  3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..f334b5c 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房が設置されていない室（最大風量が 0.0）では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & (rac_spec['v_max'] > 0.0)
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..dd1f366 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
@@ -287,10 +287,12 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    # 対流冷房が設置されていない室（設置なし・放射冷房）には能力・風量の指定が無いため、0.0 とする。
+    rac_is = [s['equipment']['cooling']['convective'] for s in ss]
+    qmin_c_is = np.array([float(r['q_min']) if r['installed'] else 0.0 for r in rac_is]).reshape(-1, 1)
+    qmax_c_is = np.array([float(r['q_max']) if r['installed'] else 0.0 for r in rac_is]).reshape(-1, 1)
+    Vmin_is = np.array([float(r['v_min']) if r['installed'] else 0.0 for r in rac_is]).reshape(-1, 1)
+    Vmax_is = np.array([float(r['v_max']) if r['installed'] else 0.0 for r in rac_is]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0


From e5c18c9629d12a8fa2fc1340cacd641732a0ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 04/20] fix: absorb radiant cooling in the room, and give rooms
 without a floor weights that sum to one

---
 .../initializer/a12_indoor_radiative_heat_transfer.py  |  7 +++++--
 heat_load_calc/initializer/initializer.py              | 10 ++++++----
 heat_load_calc/initializer/occupants_form_factor.py    |  4 ++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
index bde5c82..866eb23 100644
--- a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
+++ b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
@@ -17,9 +17,12 @@ def get_flr_i_js(area_i_js: np.ndarray, is_radiative_heating: bool, is_floor_i_j
         放射暖房放射成分吸収比率
     """
 
-    a_floor_i = np.sum(area_i_js[is_floor_i_js])
+    # 床が無い室の場合は、室の全ての境界に面積按分する。
+    is_emitter_i_js = is_floor_i_js if np.any(is_floor_i_js) else np.full(len(area_i_js), True)
 
-    flr_i_js = area_i_js / a_floor_i * is_radiative_heating * is_floor_i_js
+    a_emitter_i = np.sum(area_i_js[is_emitter_i_js])
+
+    flr_i_js = area_i_js / a_emitter_i * is_radiative_heating * is_emitter_i_js
 
     return flr_i_js
 
diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..d2485b8 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -660,9 +660,11 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             is_floor_bdry_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
-    # 暖房設備仕様の読み込み
-    # 放射暖房有無（Trueなら放射暖房あり）
-    is_radiative_heating_is = [a22.read_is_radiative_heating(room) for room in rooms]
+    # 暖房設備・冷房設備仕様の読み込み
+    # 放射暖房又は放射冷房の有無（Trueなら放射暖房又は放射冷房あり）
+    is_radiative_is = [
+        a22.read_is_radiative_heating(room) or a22.read_is_radiative_cooling(room) for room in rooms
+    ]
 
     # 放射暖房の発熱部位の設定（とりあえず床発熱） 表7
     # TODO: 発熱部位を指定して、面積按分するように変更すべき。
@@ -671,7 +673,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
         is_connected = np.array([bs.connected_room_id == i for bs in bss2])
         flr_js[is_connected] = a12.get_flr_i_js(
             area_i_js=np.array([bs.area for bs in np.array(bss2)[is_connected]]),
-            is_radiative_heating=is_radiative_heating_is[i],
+            is_radiative_heating=is_radiative_is[i],
             is_floor_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
diff --git a/heat_load_calc/initializer/occupants_form_factor.py b/heat_load_calc/initializer/occupants_form_factor.py
index 2410143..c39e8dd 100644
--- a/heat_load_calc/initializer/occupants_form_factor.py
+++ b/heat_load_calc/initializer/occupants_form_factor.py
@@ -16,6 +16,10 @@ def get_f_mrt_hum_is(a_bdry_i_js: np.ndarray, is_floor_bdry_i_js: np.ndarray) ->
     # 室iの下向き部位（床）全体の形態係数
     f_mrt_hum_floor = 0.45
 
+    # 床のみ・床以外のみの室の場合は、室の全ての境界に面積按分する。
+    if np.all(is_floor_bdry_i_js) or not np.any(is_floor_bdry_i_js):
+        return a_bdry_i_js / np.sum(a_bdry_i_js)
+
     # 人体に対する部位の形態係数の計算
     f_mrt_hum_i_js = np.zeros(len(a_bdry_i_js), dtype=np.float)
 
-- 
2.43.0


From c8d44a2a49b85c17c76470acba4b62e6e4fa0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 05/20] fix: let ground boundaries feel the deep-ground
 temperature in the building calculation, as in the ground run-up

---
 heat_load_calc/core/conditions.py             | 20 ++++++++++++++++++-
 heat_load_calc/core/core.py                   |  3 ++-
 heat_load_calc/initializer/boundary_simple.py |  3 +++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..b4307a4 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -142,7 +142,25 @@ def initialize_ground_conditions(n_grounds: int):
     )
 
 
-def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, gc: GroundConditions):
+def update_conditions_by_ground_conditions(
+        is_ground: np.array,
+        c: Conditions,
+        gc: GroundConditions,
+        theta_dsh_srf_t_js_ms_steady: np.ndarray
+):
+    """
+    地盤の助走計算の結果を建物の計算の初期値に引き継ぐ
+    Args:
+        is_ground: 境界jが地盤か否か, [j]
+        c: 建物の状態量
+        gc: 地盤の状態量
+        theta_dsh_srf_t_js_ms_steady: 裏面温度が一定で十分に時間が経過した時の貫流応答の項別成分, degree C, [j, m]
+    Returns:
+        建物の状態量
+    """
+
+    # 地盤の深部温度は年間一定であるため、貫流応答の項別成分は定常値とする。
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = theta_dsh_srf_t_js_ms_steady[is_ground, :]
 
     c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
 
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..6eb6689 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -73,7 +73,8 @@ def calc(
     c_n = conditions.update_conditions_by_ground_conditions(
         is_ground=pp.is_ground_js.flatten(),
         c=c_n,
-        gc=gc_n
+        gc=gc_n,
+        theta_dsh_srf_t_js_ms_steady=pp.phi_t1_js_ms / (1.0 - pp.r_js_ms) * pp.theta_dstrb_js_ns[:, [0]]
     )
 
     print('助走計算（建物全体）')
diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..5e9a723 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -110,6 +110,9 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    # 地盤の場合は、裏面の温度がそのまま深部温度（theta_o_sol）になる。
+    elif b['boundary_type'] == 'ground':
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From 5e745d8d4d143f5d174abb0337ad76cd75412418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 06/20] fix: response factors no longer change when they are
 asked for twice

---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From 8d8bd07e011c2f11344dfe9edaf383eb0fab8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 07/20] fix: compute response factors for the calculation
 interval in use instead of always 900 s

---
 heat_load_calc/core/pre_calc_parameters.py    |  6 +--
 heat_load_calc/initializer/response_factor.py | 38 +++++++++++--------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index dd1f366..e5bbe0c 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -321,7 +321,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     a_srf_js = np.array([b['area'] for b in bs]).reshape(-1, 1)
 
     # 応答係数を取得する。
-    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs)
+    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs, delta_t)
 
     # 境界jの室内側表面対流熱伝達率, W/m2K, [j, 1]
     h_c_js = np.array([b['h_c'] for b in bs]).reshape(-1, 1)
@@ -624,7 +624,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     return pre_calc_parameters, pre_calc_parameters_ground
 
 
-def _get_responsfactors(bs):
+def _get_responsfactors(bs, delta_t):
 
     # 境界jの吸熱応答係数の初項, m2K/W, [j, 1]
     phi_a0_js = []
@@ -638,7 +638,7 @@ def _get_responsfactors(bs):
     r_js_ms = []
 
     for b in bs:
-        rff = response_factor.ResponseFactorFactory.create(spec=b['spec'])
+        rff = response_factor.ResponseFactorFactory.create(spec=b['spec'], delta_t=delta_t)
         rf = rff.get_response_factors()
         phi_a0_js.append(rf.rfa0)
         phi_a1_js_ms.append(rf.rfa1)
diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index e852d9d..eae72b7 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -94,7 +94,7 @@ def get_alpha_m(is_ground: bool) -> np.ndarray:
 
 
 # 壁体の単位応答の計算
-def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float], M: int):
+def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float], M: int, delta_t: float):
     """
     :param layers: 壁体構成部材
     :param laps: ラプラス変数
@@ -207,8 +207,8 @@ def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float],
         dblATstep[lngJ] = dblAT0
         dblAAstep[lngJ] = dblAA0
         for lngK, root in enumerate(alp):
-            dblATstep[lngJ] = dblATstep[lngJ] + dblAT[lngK] * math.exp(-root * lngJ * 900)
-            dblAAstep[lngJ] = dblAAstep[lngJ] + dblAA[lngK] * math.exp(-root * lngJ * 900)
+            dblATstep[lngJ] = dblATstep[lngJ] + dblAT[lngK] * math.exp(-root * lngJ * delta_t)
+            dblAAstep[lngJ] = dblAAstep[lngJ] + dblAA[lngK] * math.exp(-root * lngJ * delta_t)
 
     # デバッグ用
     # print('四端子基本行列：', matFi)
@@ -229,13 +229,13 @@ def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float],
 
 
 # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-def get_RFTRI(alp, AT0, AA0, AT, AA, M):
+def get_RFTRI(alp, AT0, AA0, AT, AA, M, delta_t):
     # 二等辺三角波励振の応答係数の配列を初期化
     dblRFT = np.zeros(M)
     dblRFA = np.zeros(M)
 
     # 二等辺三角波励振の応答係数の初項を計算
-    dblTemp = np.array(alp) * 900
+    dblTemp = np.array(alp) * delta_t
     dblE1 = (1.0 - np.exp(-dblTemp)) / dblTemp
     dblRFT[0] = AT0 + np.sum(dblE1 * AT)
     dblRFA[0] = AA0 + np.sum(dblE1 * AA)
@@ -263,7 +263,7 @@ def get_RFTRI(alp, AT0, AA0, AT, AA, M):
 
 
 # 応答係数
-def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
+def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p, delta_t: float = 900.0):
     """
     VBAからの主な変更点：
     (1)二次元配列（objArray）で壁体の情報を受け取っていたが、壁体情報クラスで受け取るように変更
@@ -276,7 +276,7 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     """
 
     NcalTime = 50  # 応答係数を作成する時間数[h]
-    M = int(NcalTime * 3600 / 900) + 1  # 応答係数で作成する項数
+    M = int(NcalTime * 3600 / delta_t) + 1  # 応答係数で作成する項数
 
     # 固定根, 一般部位の場合[8], 地盤の場合[10]
     alpha_m = get_alpha_m(is_ground)
@@ -285,10 +285,10 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     laps = get_laps(alpha_m)
 
     # 単位応答の計算
-    AT0, AA0, AT, AA, ATstep, AAstep = get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps, alpha_m, M)
+    AT0, AA0, AT, AA, ATstep, AAstep = get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps, alpha_m, M, delta_t)
 
     # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M)
+    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M, delta_t)
 
     RFT0 = RFT[0]  # 貫流応答係数の初項
     RFA0 = RFA[0]  # 吸熱応答係数の初項
@@ -310,7 +310,7 @@ class ResponseFactorFactory:
         pass
 
     @classmethod
-    def create(cls, spec: Dict):
+    def create(cls, spec: Dict, delta_t: float = 900.0):
 
         if spec['method'] == 'response_factor':
 
@@ -331,7 +331,8 @@ class ResponseFactorFactory:
                 return ResponseFactorFactoryTransientEnvelope(
                     cs=[float(layer['thermal_capacity']) for layer in layers],
                     rs=[float(layer['thermal_resistance']) for layer in layers],
-                    r_o=float(spec['outside_heat_transfer_resistance'])
+                    r_o=float(spec['outside_heat_transfer_resistance']),
+                    delta_t=delta_t
                 )
 
             elif spec['boundary_type'] == 'ground':
@@ -340,7 +341,8 @@ class ResponseFactorFactory:
 
                 return ResponseFactorFactoryTransientGround(
                     cs=[float(layer['thermal_capacity']) for layer in layers],
-                    rs=[float(layer['thermal_resistance']) for layer in layers]
+                    rs=[float(layer['thermal_resistance']) for layer in layers],
+                    delta_t=delta_t
                 )
 
             elif spec['boundary_type'] in ['external_transparent_part', 'external_opaque_part']:
@@ -382,19 +384,21 @@ class ResponseFactorFactoryDirect(ResponseFactorFactory):
 
 class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
-    def __init__(self, cs: List[float], rs: List[float], r_o: float):
+    def __init__(self, cs: List[float], rs: List[float], r_o: float, delta_t: float = 900.0):
         """
 
         Args:
             cs: 熱容量, kJ/m2K, [layer数]
             rs: 熱抵抗, m2K/W, [layer数]
             r_o: 室外側熱伝達抵抗, m2K/W
+            delta_t: 計算時間間隔, s
         """
 
         super().__init__()
         self._cs = cs
         self._rs = rs
         self._r_o = r_o
+        self._delta_t = delta_t
 
     def get_response_factors(self) -> ResponseFactor:
 
@@ -408,24 +412,26 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, self._delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
 
 class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
-    def __init__(self, cs: List[float], rs: List[float]):
+    def __init__(self, cs: List[float], rs: List[float], delta_t: float = 900.0):
         """
 
         Args:
             cs: 熱容量, kJ/m2K, [layer数]
             rs: 熱抵抗, m2K/W, [layer数]
+            delta_t: 計算時間間隔, s
         """
 
         super().__init__()
         self._cs = cs
         self._rs = rs
+        self._delta_t = delta_t
 
     def get_response_factors(self) -> ResponseFactor:
 
@@ -439,7 +445,7 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, self._delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
-- 
2.43.0


From 82c2cf88a6d4e9432f7367d3d3f9383580e15a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 08/20] fix: time stamps of the results follow the calculation
 interval

---
 heat_load_calc/core/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/core/log.py b/heat_load_calc/core/log.py
index acc4839..efb5653 100644
--- a/heat_load_calc/core/log.py
+++ b/heat_load_calc/core/log.py
@@ -154,9 +154,11 @@ class Logger:
 
 def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int):
 
-    date_index_15min = pd.date_range(start='1/1/1989', periods=n_step_main, freq='15min')
+    # 1時間を分割した数から、計算間隔に応じた時刻を付ける。
+    n_step_hourly = n_step_main // (n_d_main * 24)
+    date_index = pd.date_range(start='1/1/1989', periods=n_step_main, freq=pd.Timedelta(hours=1) / n_step_hourly)
 
-    dd = pd.DataFrame(index=date_index_15min)
+    dd = pd.DataFrame(index=date_index)
 
     dd['out_temp'] = logger.theta_o_ns[0:n_step_main]
     dd['out_abs_humid'] = logger.x_o_ns[0:n_step_main]
-- 
2.43.0


From 3fb7203f1318ec6612166c96f77fc1be2045ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 09/20] fix: sun exactly in front of a surface gave NaN
 radiation (rounding above 1 in arccos)

---
 heat_load_calc/initializer/inclined_surface_solar_radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 8593111..4235bf8 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -109,7 +109,8 @@ def get_theta_aoi_j_n(
     )
 
     # cos がマイナスの場合は入射角が90°～270°、つまり傾斜面の裏面に太陽が位置していることになるため、ゼロにする。
-    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, None)
+    # 太陽が傾斜面の正面にある場合に丸め誤差で 1.0 をわずかに超えると arccos が NaN になるため、1.0 を上限とする。
+    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, 1.0)
 
     # cos から radian に変換する。
     theta_aoi_j_n = np.arccos(cos_theta_aoi_j_n)
-- 
2.43.0


From fdff813afd7b20084f5f29e60f57077d9c175a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 10/20] fix: U value of boundary floors and ceilings when part
 specifications are made from indices

---
 .../convert/convert_indices_to_lv2_info.py    |  2 +-
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 25 ++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/convert/convert_indices_to_lv2_info.py b/heat_load_calc/convert/convert_indices_to_lv2_info.py
index b3b4d2c..532c80e 100644
--- a/heat_load_calc/convert/convert_indices_to_lv2_info.py
+++ b/heat_load_calc/convert/convert_indices_to_lv2_info.py
@@ -99,7 +99,7 @@ def add_spec_gps(gps: List[GeneralPartNoSpec], u: get_u_and_eta.PartType) -> Lis
             sunshade=s.sunshade,
             general_part_spec=GeneralPartSpecUValueOther(
                 general_part_type=s.general_part_type,
-                u_value_other=get_u_and_eta.get_u_psi(u, s.general_part_type.value),
+                u_value_other=get_u_and_eta.get_u_psi(u, get_u_and_eta.get_part_type(s.general_part_type)),
                 weight='light'
             )
         )
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..9f06e59 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -25,6 +25,25 @@ PartType = namedtuple('PartType', [
 ])
 
 
+def get_part_type(general_part_type: GeneralPartType) -> str:
+    """
+    Args:
+        general_part_type: 一般部位の種類
+    Returns:
+        部位の名称
+    """
+
+    return {
+        GeneralPartType.ROOF: 'roof',
+        GeneralPartType.CEILING: 'ceiling',
+        GeneralPartType.WALL: 'wall',
+        GeneralPartType.FLOOR: 'floor',
+        GeneralPartType.BOUNDARY_WALL: 'boundary_wall',
+        GeneralPartType.UPWARD_BOUNDARY_FLOOR: 'boundary_ceiling',
+        GeneralPartType.DOWNWARD_BOUNDARY_FLOOR: 'boundary_floor'
+    }[general_part_type]
+
+
 def get_u_psi(u_psi: PartType, key: str) -> float:
     """
     Args:
@@ -41,7 +60,7 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -193,12 +212,12 @@ def get_m_opq(
     """
 
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * u_psi_value[get_part_type(s.general_part_type)] * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * u_psi_value[get_part_type(s.general_part_type)] * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-- 
2.43.0


From 9c66a9ffb7f0edca8d6edb5e5e87f742571c69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 11/20] fix: solar heat gain of windows that do not face the
 outdoors

---
 heat_load_calc/convert/ees_house.py                        | 5 +++++
 heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..b0e10f6 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1696,6 +1696,11 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         return self._window_spec.get_eta_d(season=season)
 
     def get_m(self, region: int, season: str) -> float:
+
+        # 外気に面さない窓は日射があたらず、日射熱取得補正係数も定義されない。
+        if self.next_space != NextSpace.OUTDOOR:
+            return 0.0
+
         return self.get_eta_d(season=season) \
                * self.area \
                * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 9f06e59..96fec00 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -246,6 +246,9 @@ def get_eta_d_each(
         η_d,h・η_d,c 値, (W/m2)/(W/m2)
     """
 
+    # 外気に面さない窓は日射があたらず、日射熱取得補正係数も定義されない。
+    ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
+
     sum_a_f_nu_h = sum(
         s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
     )
-- 
2.43.0


From 0bd6713375933a08cf59ec2b72363fcc8986bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 12/20] fix: part specifications from indices in region 8,
 which has no heating season

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 96fec00..00e76b6 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -211,18 +211,24 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
-    m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[get_part_type(s.general_part_type)] * s.get_nu(region=region, season='heating')
-        for s in gps
-    ])
+    # 8地域においては暖房期が定義されない。
+    if region == 8:
+        m_opq_h_general_part = 0.0
+        m_opq_h_door = 0.0
+    else:
+        m_opq_h_general_part = sum([
+            s.area * 0.034 * u_psi_value[get_part_type(s.general_part_type)] * s.get_nu(region=region, season='heating')
+            for s in gps
+        ])
+        m_opq_h_door = sum([
+            s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds
+        ])
 
     m_opq_c_general_part = sum([
         s.area * 0.034 * u_psi_value[get_part_type(s.general_part_type)] * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-    m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
-
     m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
 
     m_opq_h = m_opq_h_general_part + m_opq_h_door
@@ -249,17 +255,21 @@ def get_eta_d_each(
     # 外気に面さない窓は日射があたらず、日射熱取得補正係数も定義されない。
     ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
-    )
-
     sum_a_f_nu_c = sum(
         s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
     )
 
-    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
     eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
 
+    # 8地域においては暖房期が定義されないため、冷房期の値を用いる。
+    if region == 8:
+        eta_d_h = eta_d_c
+    else:
+        sum_a_f_nu_h = sum(
+            s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+        )
+        eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
+
     return float(eta_d_h), float(eta_d_c)
 
 
@@ -314,7 +324,8 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    # 8地域においては暖房期が定義されない。
+    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target) if region != 8 else 0.0
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From 70168015aa507af94c9d2c124a67c638be49b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 13/20] fix: windows without sunshade or with a detailed
 sunshade can be read

---
 heat_load_calc/convert/factor_f.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..b8c912c 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -293,11 +293,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
@@ -519,7 +519,7 @@ class SunshadeTransientExistDetail(SunshadeTransient):
             f値
         """
 
-        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season)
+        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season, direction=direction)
 
     def get_as_dict(self):
 
-- 
2.43.0


From deae3712f522718c073683e40955857e6943423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 14/20] fix: a detailed sunshade is written in the form in
 which it is read

---
 heat_load_calc/convert/factor_f.py | 44 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index b8c912c..7a5e792 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From 9551e2d3a37478f12e25bf7d92822c7e7e4ce3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 15/20] fix: windows are handed to the initializer under the
 name of the room it reads

---
 heat_load_calc/convert/ees_house.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b0e10f6..6313314 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1725,7 +1725,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         # TODO: 下記の表面熱伝達抵抗や長波長放射率についてはきちんと整理しないといけない。
         d = {
             'name': self.name,
-            'connected_id': self.space_type.get_connected_id(),
+            'connected_room_id': self.space_type.get_connected_id(),
             'boundary_type': 'external_transparent_part',
             'area': self.area,
             'is_sun_striked_outside': is_sun_striked_outside,
-- 
2.43.0


From 692371ebdca15acb89edd851a73589dba5e55181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 16/20] fix: saturation vapour pressure of whole-number
 temperatures is not truncated

---
 heat_load_calc/external/psychrometrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/external/psychrometrics.py b/heat_load_calc/external/psychrometrics.py
index 26fd52d..9ba3685 100644
--- a/heat_load_calc/external/psychrometrics.py
+++ b/heat_load_calc/external/psychrometrics.py
@@ -122,7 +122,7 @@ def get_p_vs_is2(theta: np.ndarray) -> np.ndarray:
     b_4 = -0.000013198825
     b_5 = -0.49382577
 
-    p_vs_is = np.zeros_like(theta)
+    p_vs_is = np.zeros_like(theta, dtype=float)
 
     p_vs_is[theta >= 0.0] = np.exp(a_1 / t[theta >= 0.0] + a_2 + a_3 * t[theta >= 0.0] + a_4 * t[theta >= 0.0] ** 2 + a_5 * np.log(t[theta >= 0.0]))
     p_vs_is[theta < 0.0] = np.exp(b_1 / t[theta < 0.0] + b_2 + b_3 * t[theta < 0.0] + b_4 * t[theta < 0.0] ** 2 + b_5 * np.log(t[theta < 0.0]))
-- 
2.43.0


From bc3379ccdfa815ab85499ad5d365a0097f72947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 17/20] fix: homes without non-occupant rooms whose floor areas
 add up only up to rounding

---
 heat_load_calc/convert/convert_lv3_to_lv4.py | 25 ++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index a797509..d717e82 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -16,6 +16,23 @@ from heat_load_calc.convert.ees_house import HeatResistanceInputMethod
 from heat_load_calc.external.factor_nu import Direction
 
 
+def get_non_occupant_room_floor_area(a_a: float, a_mr: float, a_or: float) -> float:
+    """
+    Args:
+        a_a: 床面積の合計, m2
+        a_mr: 主たる居室の床面積, m2
+        a_or: その他の居室の床面積, m2
+    Returns:
+        非居室の床面積, m2
+    Notes:
+        非居室がない場合に、引き算の丸め誤差によってわずかな正または負の値とならないようにする。
+    """
+
+    a_nr = a_a - a_mr - a_or
+
+    return 0.0 if abs(a_nr) < 1.0e-9 else a_nr
+
+
 def get_inner_floor_layers() -> List[Layer]:
     """
     Returns:
@@ -114,7 +131,7 @@ def get_inner_floor_total_area(
 
     a_if_mr = max(0.0, a_mr - a_evlp_down_mr - a_ef_mr)
     a_if_or = max(0.0, a_or - a_evlp_down_or - a_ef_or)
-    a_if_nr = max(0.0, a_a - a_mr - a_or - a_evlp_down_nr - a_ef_nr)
+    a_if_nr = max(0.0, get_non_occupant_room_floor_area(a_a, a_mr, a_or) - a_evlp_down_nr - a_ef_nr)
 
     return a_if_mr, a_if_or, a_if_nr
 
@@ -170,7 +187,7 @@ def get_inner_floor_between_rooms(
             (6) 床上側が非居室に接し床下側がその他の居室に接する間仕切り床の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_non_occupant_room_floor_area(a_a, a_mr, a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
@@ -289,7 +306,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * (a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * get_non_occupant_room_floor_area(a_a, a_mr, a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
@@ -312,7 +329,7 @@ def get_inner_wall_total_area_between_rooms(
             (3) その他の居室と非居室に接する間仕切り壁の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_non_occupant_room_floor_area(a_a, a_mr, a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
-- 
2.43.0


From 06e42e22a40b3031b395125092a8b4f09e5ce295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 18/20] fix: rooms without a surface that absorbs sun gave NaN
 for the whole house

---
 heat_load_calc/core/pre_calc_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index e5bbe0c..4d5aef8 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -482,6 +482,10 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     # 室iにおける日射が吸収される境界の面積の合計, m2, [i, 1]
     a_srf_abs_is = np.dot(p_is_js, a_srf_js * is_solar_abs_js)
 
+    # 日射が吸収される境界を持たない室では、室のすべての境界が面積に応じて日射を吸収するものとする。
+    is_solar_abs_js = np.where(np.dot(p_js_is, a_srf_abs_is) > 0.0, is_solar_abs_js, 1)
+    a_srf_abs_is = np.dot(p_is_js, a_srf_js * is_solar_abs_js)
+
     # ステップnの境界jにおける透過日射吸収熱量, W/m2, [j, n]
     q_sol_js_ns = np.dot(p_js_is, q_trs_sol_is_ns / a_srf_abs_is)\
         * is_solar_abs_js * (1.0 - r_sol_fnt)
-- 
2.43.0


From e97c8cdcbd81226936bd0464bf15ceb93e817718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:30 +0000
Subject: [PATCH 19/20] fix: mixtures of gases of one hundred percent were
 refused by rounding of their sum

---
 notebook/initializer/shgc_window/glass_thermal_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebook/initializer/shgc_window/glass_thermal_balance.py b/notebook/initializer/shgc_window/glass_thermal_balance.py
index 7d3fe69..654a170 100644
--- a/notebook/initializer/shgc_window/glass_thermal_balance.py
+++ b/notebook/initializer/shgc_window/glass_thermal_balance.py
@@ -302,7 +302,7 @@ class MixedAirProperty:
         """
 
         # confirm that the sum of the volumetric ratio of each air property equals to 100%.
-        if c_air + c_argon + c_sf6 + c_krypton != 100.0:
+        if abs(c_air + c_argon + c_sf6 + c_krypton - 100.0) > 1.0e-6:
             raise ValueError('気体の容積割合の合計は100.0になる必要があります')
 
         self._c_air = c_air
-- 
2.43.0


From a368b7c78d432757af0d12620900e863b4a8cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:30 +0000
Subject: [PATCH 20/20] fix: radiation of the room side surface of a glazing
 used the emissivity of its outer surface

---
 notebook/initializer/shgc_window/glass_thermal_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebook/initializer/shgc_window/glass_thermal_balance.py b/notebook/initializer/shgc_window/glass_thermal_balance.py
index 654a170..9345a8c 100644
--- a/notebook/initializer/shgc_window/glass_thermal_balance.py
+++ b/notebook/initializer/shgc_window/glass_thermal_balance.py
@@ -777,7 +777,7 @@ class Glass:
         if surface_method == 'JIS_A2103':
             t_s = theta_s + ABSOLUTE_ZERO
             t_r_i = theta_r_i + ABSOLUTE_ZERO
-            h_r = self._gls[0].sff.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
+            h_r = self._gls[-1].sfb.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
             h_c = {
                 'summer': 2.5,
                 'winter': 3.6
-- 
2.43.0

