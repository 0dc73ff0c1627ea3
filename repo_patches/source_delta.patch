From b5f47e83bfb4f4d92df9c38c96dba75aea393461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 01/20] fix: do not round the room-side weight of the rear
 temperature to one decimal

---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 422f4807de71d2a4dc2ddcb3adbc14abb5d8bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/20] fix: give each surface its own radiative coefficient
 when surfaces are not listed room by room

---
 heat_load_calc/core/shape_factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..5dd8e56 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,11 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 境界jは室iの順番に並んでいるとは限らないため、室iに接する境界の位置に値を戻す。
+    f_js = np.zeros(p_js_is.shape[0], dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From f6ed7a7696ace0db35ca4a756e5b05a21cd8df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 03/20] fix: read the radiative cooling capacity from where the
 initializer writes it

---
 heat_load_calc/core/pre_calc_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..ffb4a67 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
-- 
2.43.0


From 18bf722dc176b6bee2edb0e8121814c8530d0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 04/20] fix: do not grow the wall's layer list each time its
 response factors are computed

---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From c1882ce213e298ce65f8de49639dacc71305911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 05/20] fix: accept rooms without a convective cooling unit (no
 dehumidification there)

---
 heat_load_calc/core/heat_exchanger.py      | 3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..b91a68d 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房の仕様を持たない室（放射冷房のみの室・冷房を設置しない室）では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & np.logical_not(np.isnan(rac_spec['q_min']))
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index ffb4a67..beb7bbd 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -287,10 +287,10 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    qmin_c_is = np.array([s['equipment']['cooling']['convective'].get('q_min', np.nan) for s in ss]).reshape(-1, 1)
+    qmax_c_is = np.array([s['equipment']['cooling']['convective'].get('q_max', np.nan) for s in ss]).reshape(-1, 1)
+    Vmin_is = np.array([s['equipment']['cooling']['convective'].get('v_min', np.nan) for s in ss]).reshape(-1, 1)
+    Vmax_is = np.array([s['equipment']['cooling']['convective'].get('v_max', np.nan) for s in ss]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0


From 94d4754cc4ce55dbb4422113cf886b17a3133d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 06/20] fix: keep the deep-ground temperature when the ground
 run-up hands over to the building run-up

The ground-only run-up adds the mean outdoor temperature to the surface
temperature as the steady transmission response, but the building phase
started from a zero transmission component and a rear temperature of 0 degC,
so the ground beneath the house was suddenly at 0 degC.
---
 heat_load_calc/core/conditions.py             | 6 +++++-
 heat_load_calc/core/core.py                   | 3 ++-
 heat_load_calc/core/pre_calc_parameters.py    | 4 ++++
 heat_load_calc/initializer/boundary_simple.py | 3 +++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..ed0f9a7 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -142,10 +142,14 @@ def initialize_ground_conditions(n_grounds: int):
     )
 
 
-def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, gc: GroundConditions):
+def update_conditions_by_ground_conditions(
+        is_ground: np.array, c: Conditions, gc: GroundConditions, theta_dsh_srf_t_js_ms_n: np.ndarray):
 
     c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
 
     c.q_srf_js_n[is_ground, :] = gc.q_srf_js_n
 
+    # 地盤の深部温度は一定であるため、貫流応答の項別成分はその定常値とする。
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = theta_dsh_srf_t_js_ms_n
+
     return c
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..f66f5e1 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -73,7 +73,8 @@ def calc(
     c_n = conditions.update_conditions_by_ground_conditions(
         is_ground=pp.is_ground_js.flatten(),
         c=c_n,
-        gc=gc_n
+        gc=gc_n,
+        theta_dsh_srf_t_js_ms_n=ppg.phi_t1_js_ms / (1.0 - ppg.r_js_ms) * ppg.theta_o_ave
     )
 
     print('助走計算（建物全体）')
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index beb7bbd..1d470d4 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -199,6 +199,9 @@ class PreCalcParametersGround:
     # 地盤jの項別公比法における項mの吸熱応答係数の第一項 , m2K/W, [j, 12]
     phi_a1_js_ms: np.ndarray
 
+    # 地盤jの項別公比法における項mの貫流応答係数の第一項, [j, 12]
+    phi_t1_js_ms: np.ndarray
+
     # 地盤jにおける室内側放射熱伝達率, W/m2K, [j, 1]
     h_r_js: np.ndarray
 
@@ -613,6 +616,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r_js_ms=r_js_ms[is_ground_js.flatten(), :],
         phi_a0_js=phi_a0_js[is_ground_js.flatten(), :],
         phi_a1_js_ms=phi_a1_js_ms[is_ground_js.flatten(), :],
+        phi_t1_js_ms=phi_t1_js_ms[is_ground_js.flatten(), :],
         h_r_js=h_r_js[is_ground_js.flatten(), :],
         h_c_js=h_c_js[is_ground_js.flatten(), :],
         theta_o_ns=theta_o_ns,
diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..c307b67 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -110,6 +110,9 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    elif b['boundary_type'] == 'ground':
+        # 地盤の裏面温度（＝深部温度）はそのまま裏面温度に影響する。
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From b7d7d42f465d9247888f589a36d9ae491dfd3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 07/20] fix: accept room volumes written as whole numbers

---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..293f831 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -344,7 +344,7 @@ def _make_spaces_dict(rooms: List[dict]):
     check_not_specifying_multi_room_type(room_type_is=room_type_is, specified_type=RoomType.UNDERFLOOR)
 
     # 室iの気積, m3, [i]
-    v_room_cap_is = np.array([r['volume'] for r in rooms])
+    v_room_cap_is = np.array([r['volume'] for r in rooms], dtype=float)
 
     # 室iの外気からの機械換気量, m3/h, [i]
     v_vent_ex_is = np.array([r['vent'] for r in rooms])
-- 
2.43.0


From 9bba43c2dd104a8b9f70a4d22624a90aaa6e1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 08/20] fix: build attached houses from indices (boundary
 floors by their own U value, unexposed windows gain nothing)

---
 .../convert/convert_indices_to_lv2_info.py    |  2 +-
 heat_load_calc/convert/ees_house.py           |  7 +++++--
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 20 ++++++++++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/convert/convert_indices_to_lv2_info.py b/heat_load_calc/convert/convert_indices_to_lv2_info.py
index b3b4d2c..f5a3e91 100644
--- a/heat_load_calc/convert/convert_indices_to_lv2_info.py
+++ b/heat_load_calc/convert/convert_indices_to_lv2_info.py
@@ -99,7 +99,7 @@ def add_spec_gps(gps: List[GeneralPartNoSpec], u: get_u_and_eta.PartType) -> Lis
             sunshade=s.sunshade,
             general_part_spec=GeneralPartSpecUValueOther(
                 general_part_type=s.general_part_type,
-                u_value_other=get_u_and_eta.get_u_psi(u, s.general_part_type.value),
+                u_value_other=get_u_and_eta.get_u_psi(u, get_u_and_eta.get_part_type_name(s.general_part_type)),
                 weight='light'
             )
         )
diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..9409f93 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1605,7 +1605,10 @@ class WindowNoSpec(UpperArealEnvelope):
         従って、この get_f 関数は、Window クラスでオーバーライドし、引数にガラスの構成を与えるようにすべき。
         """
 
-        return self.sunshade.get_f(region=region, season=season, direction=self.direction)
+        if self.next_space == NextSpace.OUTDOOR:
+            return self.sunshade.get_f(region=region, season=season, direction=self.direction)
+        else:
+            return 0.0
 
 
 class Window(WindowNoSpec, IGetQ, IGetM):
@@ -1698,7 +1701,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
     def get_m(self, region: int, season: str) -> float:
         return self.get_eta_d(season=season) \
                * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+               * self.get_f(region=region, season=season) \
                * self.get_nu(region=region, season=season)
 
     def get_as_dict(self):
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..7ad4bad 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -41,13 +41,27 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
     }[key]
 
 
+def get_part_type_name(general_part_type: GeneralPartType) -> str:
+    """
+    Args:
+        general_part_type: 一般部位の種類
+    Returns:
+        部位の名称（ PartType のフィールド名 ）
+    """
+
+    return {
+        GeneralPartType.UPWARD_BOUNDARY_FLOOR: 'boundary_ceiling',
+        GeneralPartType.DOWNWARD_BOUNDARY_FLOOR: 'boundary_floor'
+    }.get(general_part_type, general_part_type.value)
+
+
 def get_u_psi_std(region: int, part_type: str) -> float:
     """
     Args:
@@ -193,12 +207,12 @@ def get_m_opq(
     """
 
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * u_psi_value[get_part_type_name(s.general_part_type)] * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * u_psi_value[get_part_type_name(s.general_part_type)] * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-- 
2.43.0


From b8d261432dd5f765f89cb50e1d04fedfb5af5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 09/20] fix: do not ask for a heating season in region 8 when
 building a house from indices

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 7ad4bad..a0c3ab3 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -206,7 +206,8 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
-    m_opq_h_general_part = sum([
+    # 8地域に暖房期はない。
+    m_opq_h_general_part = 0.0 if region == 8 else sum([
         s.area * 0.034 * u_psi_value[get_part_type_name(s.general_part_type)] * s.get_nu(region=region, season='heating')
         for s in gps
     ])
@@ -216,7 +217,7 @@ def get_m_opq(
         for s in gps
     ])
 
-    m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
+    m_opq_h_door = 0.0 if region == 8 else sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
 
     m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
 
@@ -241,17 +242,22 @@ def get_eta_d_each(
         η_d,h・η_d,c 値, (W/m2)/(W/m2)
     """
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
-    )
-
     sum_a_f_nu_c = sum(
         s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
     )
 
-    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
     eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
 
+    # 8地域に暖房期はない。
+    if region == 8:
+        return None, float(eta_d_c)
+
+    sum_a_f_nu_h = sum(
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+    )
+
+    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
+
     return float(eta_d_h), float(eta_d_c)
 
 
@@ -306,7 +312,7 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    m_h = None if region == 8 else _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From 981141e50399a85b4cbe096617c1e0981d0edeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 10/20] fix: return, not raise, the sunshade of windows without
 one or with a detailed one

---
 heat_load_calc/convert/factor_f.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..2c9d979 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -293,11 +293,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
-- 
2.43.0


From 9e9227a66ae5729028ae74793538215745409a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 11/20] fix: write the detailed sunshade in the form in which
 it is read

---
 heat_load_calc/convert/factor_f.py | 44 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 2c9d979..10dcbdf 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From 16adc61e3f81582f7d19bdcebb1964eaa6d39328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 12/20] fix: keep every radiant emitter within its capacity

Fixing one emitter at its capacity can push the emitter of the room behind a
shared wall over its own; repeat until none exceeds it.
---
 heat_load_calc/core/next_condition.py | 41 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/heat_load_calc/core/next_condition.py b/heat_load_calc/core/next_condition.py
index 7e03e23..c544062 100644
--- a/heat_load_calc/core/next_condition.py
+++ b/heat_load_calc/core/next_condition.py
@@ -103,29 +103,36 @@ def calc_next_temp_and_load(
     # lr 放射空調負荷, W, [i, 1]
     theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
-    # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    over_lr = lr > lr_h_max_cap_is
+    # ある室の放熱量を最大放熱量に固定すると、隣接する室に必要な放熱量が増えて最大放熱量を超えることがあるため、
+    # 最大放熱量を超える室がなくなるまで再計算する。（再計算の度に r = 1 の室が減るため、必ず終了する。）
+    while True:
 
-    # 対流負荷を未知数とする。
-    c[over_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        over_lr = (r == 1) & (lr > lr_h_max_cap_is)
 
-    # 放射負荷を最大放熱量に指定する。
-    r[over_lr] = 0
-    lr_set[over_lr] = lr_h_max_cap_is[over_lr]
+        # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
+        under_lr = (r == 1) & (lr < -lr_cs_max_cap_is)
 
-    # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
-    under_lr = lr < -lr_cs_max_cap_is
+        if not np.any(over_lr | under_lr):
+            break
 
-    # 対流負荷を未知数とする。
-    c[under_lr] = 1
+        # 対流負荷を未知数とする。
+        c[over_lr] = 1
 
-    # 放射負荷を最大放熱量に指定する。
-    r[under_lr] = 0
-    lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+        # 放射負荷を最大放熱量に指定する。
+        r[over_lr] = 0
+        lr_set[over_lr] = lr_h_max_cap_is[over_lr]
 
-    # 放射暖房を最大放熱量に指定して再計算する。
-    theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
+        # 対流負荷を未知数とする。
+        c[under_lr] = 1
+
+        # 放射負荷を最大放熱量に指定する。
+        r[under_lr] = 0
+        lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+
+        # 放射暖房を最大放熱量に指定して再計算する。
+        theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
     return theta, lc, lr
 
-- 
2.43.0


From 8d17d21ee5f6fec21e8da23cfb7e4f8f58ec99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:01 +0000
Subject: [PATCH 13/20] fix: report the hourly outdoor humidity with the digits
 of the indoor one

---
 heat_load_calc/core/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/core/log.py b/heat_load_calc/core/log.py
index acc4839..9e3ae89 100644
--- a/heat_load_calc/core/log.py
+++ b/heat_load_calc/core/log.py
@@ -221,7 +221,7 @@ def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_si
     ds = pd.DataFrame(index=date_index_1h)
 
     ds['out_temp'] = dd['out_temp'].resample('H').mean().round(2)
-    ds['out_abs_humid'] = dd['out_abs_humid'].resample('H').mean().round(2)
+    ds['out_abs_humid'] = dd['out_abs_humid'].resample('H').mean().round(4)
 
     for i in range(pps.n_spaces):
 
-- 
2.43.0


From 3d6e9259acf1da837cadac73896d6299964c4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 14/20] fix: no dehumidification where the cooling load is too
 small for any air to pass the coil

---
 heat_load_calc/core/heat_exchanger.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index b91a68d..c6bac9b 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -24,6 +24,10 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
         v_min=rac_spec['v_min'][dh]
     )
 
+    # 負荷が小さく、外挿した風量が 0 以下となる場合は、コイルを空気が通過しないため除湿しない。
+    v_ac_is_n = np.maximum(v_ac_is_n, 0.0)
+    dh = dh & (v_ac_is_n > 0.0)
+
     bf = 0.2
 
     x_e_out_is_n = np.zeros_like(lcs_is_n, dtype=float)
@@ -52,6 +56,9 @@ def get_x_e_out_is_n(bf, qs_is_n, theta_r_is_npls, vac_is_n):
 
     theta_e_out_is_n = theta_r_is_npls - qs_is_n / (get_c_air() * get_rho_air() * vac_is_n * (1.0 - bf))
 
+    # 風量が 0 に近いと温度が際限なく低くなる。飽和水蒸気圧の式の適用範囲の下限（この温度で飽和絶対湿度はほぼ 0 ）で打ち切る。
+    theta_e_out_is_n = np.maximum(theta_e_out_is_n, -100.0)
+
     x_e_out_is_n = get_x(get_p_vs_is2(theta_e_out_is_n))
 
     return x_e_out_is_n
-- 
2.43.0


From f58480b2ceb14baf1b2ca94883eb177b7e6b0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 15/20] fix: no insulated floor in a house with insulated base,
 whatever the rounding

---
 heat_load_calc/convert/model_house.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/convert/model_house.py b/heat_load_calc/convert/model_house.py
index 8ddd6ba..7a846b3 100644
--- a/heat_load_calc/convert/model_house.py
+++ b/heat_load_calc/convert/model_house.py
@@ -1154,9 +1154,12 @@ def _get_a_evp_f_total(
 
 
 def _get_a_evp_f_other(
+        house_type: str, floor_ins_type: str,
         a_f: List[float], a_evp_f_etrc: float, a_evp_f_bath: float, a_evp_ef_total: float) -> float:
     """
     Args:
+        house_type: 住戸の種類
+        floor_ins_type: 床の断熱の種類
         a_f: 各階の床面積, m2
         a_evp_f_etrc: 玄関の断熱した床の面積, m2
         a_evp_f_bath: 浴室の断熱した床の面積, m2
@@ -1165,7 +1168,11 @@ def _get_a_evp_f_other(
         断熱した床の面積の合計, m2
     """
 
-    return a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
+    # 基礎断熱住宅の1階はすべて土間床である。（引き算では丸め誤差が残る。）
+    if house_type == 'detached' and floor_ins_type == 'base':
+        return 0.0
+    else:
+        return a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
 
 
 def _get_a_evp_ef_total(a_evp_ef_bath: float, a_evp_ef_etrc: float, a_evp_ef_other: float) -> float:
@@ -1327,7 +1334,8 @@ def calc_area(
     a_evp_ef_total = _get_a_evp_ef_total(a_evp_ef_bath, a_evp_ef_etrc, a_evp_ef_other)
 
     # その他の断熱した床面積, m2
-    a_evp_f_other = _get_a_evp_f_other(a_f, a_evp_f_etrc, a_evp_f_bath, a_evp_ef_total)
+    a_evp_f_other = _get_a_evp_f_other(
+        house_type, floor_ins_type, a_f, a_evp_f_etrc, a_evp_f_bath, a_evp_ef_total)
 
     # 断熱した床面積の合計, m2
     a_evp_f_total = _get_a_evp_f_total(a_evp_f_etrc, a_evp_f_bath, a_evp_f_other)
-- 
2.43.0


From 587d96bfa144d0c7bedd77e88bf249d4d12ead73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 16/20] fix: a radiant cooling panel reaches the floor also in
 rooms without radiant heating

---
 heat_load_calc/initializer/initializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index 293f831..c934d2b 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -660,18 +660,18 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             is_floor_bdry_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
-    # 暖房設備仕様の読み込み
-    # 放射暖房有無（Trueなら放射暖房あり）
-    is_radiative_heating_is = [a22.read_is_radiative_heating(room) for room in rooms]
+    # 暖冷房設備仕様の読み込み
+    # 放射暖冷房有無（Trueなら放射暖房又は放射冷房あり）
+    is_radiative_is = [a22.read_is_radiative_heating(room) or a22.read_is_radiative_cooling(room) for room in rooms]
 
-    # 放射暖房の発熱部位の設定（とりあえず床発熱） 表7
+    # 放射暖冷房の発熱（吸熱）部位の設定（とりあえず床発熱） 表7
     # TODO: 発熱部位を指定して、面積按分するように変更すべき。
     flr_js = np.zeros_like(bss2, dtype=float)
     for i in range(n_spaces):
         is_connected = np.array([bs.connected_room_id == i for bs in bss2])
         flr_js[is_connected] = a12.get_flr_i_js(
             area_i_js=np.array([bs.area for bs in np.array(bss2)[is_connected]]),
-            is_radiative_heating=is_radiative_heating_is[i],
+            is_radiative_heating=is_radiative_is[i],
             is_floor_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
-- 
2.43.0


From fafe30d5b12b3b0c7c84e74710634a186fc9dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 17/20] fix: furniture takes the sunlight of a room where no
 surface absorbs any

---
 heat_load_calc/core/pre_calc_parameters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index 1d470d4..e794c2d 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -477,14 +477,18 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     # 室内侵入日射のうち家具に吸収される割合
     r_sol_fnt = 0.5
 
-    # ステップnの室iにおける家具の吸収日射量, W, [i, n]
-    q_sol_frnt_is_ns = q_trs_sol_is_ns * r_sol_fnt
-
     # 室iにおける日射が吸収される境界の面積の合計, m2, [i, 1]
     a_srf_abs_is = np.dot(p_is_js, a_srf_js * is_solar_abs_js)
 
+    # 日射が吸収される境界をもつ室か, [i, 1]
+    has_srf_abs_is = a_srf_abs_is > 0.0
+
+    # ステップnの室iにおける家具の吸収日射量, W, [i, n]
+    # 日射が吸収される境界のない室では、侵入日射はすべて家具に吸収される。
+    q_sol_frnt_is_ns = q_trs_sol_is_ns * np.where(has_srf_abs_is, r_sol_fnt, 1.0)
+
     # ステップnの境界jにおける透過日射吸収熱量, W/m2, [j, n]
-    q_sol_js_ns = np.dot(p_js_is, q_trs_sol_is_ns / a_srf_abs_is)\
+    q_sol_js_ns = np.dot(p_js_is, q_trs_sol_is_ns / np.where(has_srf_abs_is, a_srf_abs_is, 1.0))\
         * is_solar_abs_js * (1.0 - r_sol_fnt)
 
     # ステップnの境界jにおける外気側等価温度の外乱成分, ℃, [j, n]
-- 
2.43.0


From 74a8b466ca6d9e68c78c514480e826bb3a19477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 18/20] fix: no undefined weights in a room without floor

---
 .../initializer/a12_indoor_radiative_heat_transfer.py     | 6 ++++++
 heat_load_calc/initializer/occupants_form_factor.py       | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
index bde5c82..f178bc4 100644
--- a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
+++ b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
@@ -19,6 +19,12 @@ def get_flr_i_js(area_i_js: np.ndarray, is_radiative_heating: bool, is_floor_i_j
 
     a_floor_i = np.sum(area_i_js[is_floor_i_js])
 
+    # 床のない室には放射暖房を設置できない。（放射暖房のない室では、床の有無によらず比率は0である。）
+    if a_floor_i == 0.0:
+        if is_radiative_heating:
+            raise ValueError('床のない室に放射暖冷房が設置されました。')
+        return np.zeros_like(area_i_js, dtype=float)
+
     flr_i_js = area_i_js / a_floor_i * is_radiative_heating * is_floor_i_js
 
     return flr_i_js
diff --git a/heat_load_calc/initializer/occupants_form_factor.py b/heat_load_calc/initializer/occupants_form_factor.py
index 2410143..589f276 100644
--- a/heat_load_calc/initializer/occupants_form_factor.py
+++ b/heat_load_calc/initializer/occupants_form_factor.py
@@ -14,7 +14,13 @@ def get_f_mrt_hum_is(a_bdry_i_js: np.ndarray, is_floor_bdry_i_js: np.ndarray) ->
     """
 
     # 室iの下向き部位（床）全体の形態係数
-    f_mrt_hum_floor = 0.45
+    # 床のない室では床以外の部位のみが、床しかない室では床のみが見える。
+    if np.all(is_floor_bdry_i_js):
+        f_mrt_hum_floor = 1.0
+    elif not np.any(is_floor_bdry_i_js):
+        f_mrt_hum_floor = 0.0
+    else:
+        f_mrt_hum_floor = 0.45
 
     # 人体に対する部位の形態係数の計算
     f_mrt_hum_i_js = np.zeros(len(a_bdry_i_js), dtype=np.float)
-- 
2.43.0


From d8e1ed43c66ad749f0ef1ada6556df7fedc42063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 19/20] fix: keep the cosine of the angle of incidence within
 one

---
 heat_load_calc/initializer/inclined_surface_solar_radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 8593111..58a1250 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -109,7 +109,8 @@ def get_theta_aoi_j_n(
     )
 
     # cos がマイナスの場合は入射角が90°～270°、つまり傾斜面の裏面に太陽が位置していることになるため、ゼロにする。
-    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, None)
+    # 太陽が面の正面にある場合は丸め誤差により1を超えることがあるため、1を上限とする。
+    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, 1.0)
 
     # cos から radian に変換する。
     theta_aoi_j_n = np.arccos(cos_theta_aoi_j_n)
-- 
2.43.0


From 1277dc27f93d119bff86f0cf66312b613a51e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 20/20] fix: the sun at the zenith has no azimuth

---
 .../initializer/inclined_surface_solar_radiation.py           | 4 ++--
 heat_load_calc/initializer/solar_shading.py                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 58a1250..9ae7015 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -98,10 +98,10 @@ def get_theta_aoi_j_n(
     """
 
     # ステップnの境界jにおける傾斜面に入射する太陽の入射角のコサイン, [8760 * 4]
-    # h_sun_ns == 1.0 の場合は太陽が天頂にある時であり、太陽の方位角が定義されない。
+    # h_sun_ns == π/2 の場合は太陽が天頂にある時であり、太陽の方位角が定義されない。
     # その場合、cos(h_sun_ns)がゼロとなり、下式の第2項・第3項がゼロになる。
     cos_theta_aoi_j_n = np.where(
-        np.cos(h_sun_ns) == 0.0,
+        h_sun_ns == np.pi / 2,
         np.sin(h_sun_ns) * np.cos(w_beta_j),
         np.sin(h_sun_ns) * np.cos(w_beta_j)
         + np.cos(h_sun_ns) * np.sin(a_sun_ns) * np.sin(w_beta_j) * np.sin(w_alpha_j)
diff --git a/heat_load_calc/initializer/solar_shading.py b/heat_load_calc/initializer/solar_shading.py
index 1966c96..52e67e4 100644
--- a/heat_load_calc/initializer/solar_shading.py
+++ b/heat_load_calc/initializer/solar_shading.py
@@ -126,7 +126,7 @@ class SolarShadingSimple(SolarShading):
         """
 
         h_s_n = np.where(h_sun_n > 0.0, h_sun_n, 0.0)
-        a_s_n = np.where(h_sun_n > 0.0, a_sun_n, 0.0)
+        a_s_n = np.where((h_sun_n > 0.0) & (h_sun_n != np.pi / 2), a_sun_n, 0.0)
 
         # プロファイル角, tangent
         # TODO: cos が 0 になる可能性を整理して条件式を追加する必要あり。
-- 
2.43.0

