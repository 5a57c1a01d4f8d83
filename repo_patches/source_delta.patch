From a5749e911c2dee30aadefa7dca0bb5fdf36a92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 01/34] fix: upper bound of gen_p_max in MW used the reactive
 power limit

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From 4f7129446ff61a2d4a523ee9f3b2f2558044bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 02/34] fix: PMAX of loads was not converted to p.u.

---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..90da451 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From 3b2de865b5e6b62f056176c5fd8658eaa899f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 03/34] fix: reactive power bounds of loads with Q/P <= 0 were
 inverted or NaN

---
 gym_anm/simulator/components/devices.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 90da451..0161f9f 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,11 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # A load always consumes P <= 0, so that the sign of Q depends on that of Q/P.
+        if self.qp_ratio == 0:
+            self.q_min, self.q_max = 0.0, 0.0
+        else:
+            self.q_min, self.q_max = sorted((self.p_min * self.qp_ratio, self.p_max * self.qp_ratio))
 
     def map_pq(self, p):
         """
-- 
2.43.0


From f0ee818e72b32615cc1f6485e74513b23f6cd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 04/34] fix: units of branch_i_magn were a string rather than a
 tuple

---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From b85167b691e430af63bec200a0b4848fd7f7f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 05/34] fix: magnitude of branch currents was scaled by
 cos(angle) with numpy >= 2

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..48202c6 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -610,7 +610,7 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from.real) * np.abs(branch.i_from)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From 20415d789115dbb4ce2a74c32a9264b18621ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 06/34] fix: reset() failed with an AttributeError when no
 initial state was found

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..623591b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if not init_state_found and n_init_states == n_init_states_max:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From 13538bae949784a0b7ff9ea781819344906e07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 07/34] fix: unbounded P or Q limits made the (P, Q)
 constraints of devices NaN

---
 gym_anm/simulator/components/devices.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 0161f9f..eb8aec8 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -276,11 +276,11 @@ class Generator(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = self.q_max - (self.tau_1 * self.p_plus if self.tau_1 else 0.0)
+        self.rho_2 = self.q_min - (self.tau_2 * self.p_plus if self.tau_2 else 0.0)
 
     def map_pq(self, p, q):
         """
@@ -430,21 +430,21 @@ class StorageUnit(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = self.q_max - (self.tau_1 * self.p_plus if self.tau_1 else 0.0)
+        self.rho_2 = self.q_min - (self.tau_2 * self.p_plus if self.tau_2 else 0.0)
 
         if self.p_min == self.p_minus:
             self.tau_3 = 0.0
             self.tau_4 = 0.0
         else:
-            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min)
-            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min)
+            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min) if self.q_min != self.q_minus else 0.0
+            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min) if self.q_max != self.q_plus else 0.0
 
-        self.rho_3 = self.q_min - self.tau_3 * self.p_minus
-        self.rho_4 = self.q_max - self.tau_4 * self.p_minus
+        self.rho_3 = self.q_min - (self.tau_3 * self.p_minus if self.tau_3 else 0.0)
+        self.rho_4 = self.q_max - (self.tau_4 * self.p_minus if self.tau_4 else 0.0)
 
         self.soc_min = dev_spec[DEV_H["SOC_MIN"]]
         if self.soc_min is None:
-- 
2.43.0


From 4fe7a599d77431ee436851fea60e89c5dd2b05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 08/34] fix: TypeError instead of DeviceSpecError for a device
 with a bad DEV_TYPE

---
 gym_anm/simulator/components/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index eb8aec8..4633eac 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -85,7 +85,7 @@ class Device(object):
         self.type = dev_spec[DEV_H["DEV_TYPE"]]
         allowed = [-1, 0, 1, 2, 3]
         if self.type is None or self.type not in allowed:
-            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % allowed)
+            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % (self.dev_id, allowed))
 
         if self.type == 0:
             self.is_slack = True
-- 
2.43.0


From 40253f1feb51b81efc94e11ddc0a7e1ce190cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 09/34] fix: an initial state of charge out of range crashed
 the first step

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 48202c6..f129213 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -284,7 +284,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From c1b97ddd3cf59d9a8389b28fa575ebc907871a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 10/34] fix: float64 vectors of a callable observation were
 rejected by the default space

---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 623591b..016ea2b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From c6026731b7f8e5e37762692b0d78b47bf6cb10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 11/34] fix: step() modified past observations when
 observation() returns s_t

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 016ea2b..5a53722 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -435,6 +435,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = self.state.copy()  # past observations may refer to it
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From 218c59ce225de274a268915d5058716ae96d2b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 12/34] fix: ZeroDivisionError when reaching a terminal state
 with gamma = 1

---
 gym_anm/envs/anm_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 5a53722..e57d73a 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -429,7 +429,7 @@ class ANMEnv(gym.Env):
             r = -(self.e_loss + self.penalty)
         else:
             # Very large reward if a terminal state has been reached.
-            r = -self.costs_clipping[1] / (1 - self.gamma)
+            r = -self.costs_clipping[1] / (1 - self.gamma) if self.gamma < 1 else -np.inf
             self.e_loss = self.costs_clipping[0]
             self.penalty = self.costs_clipping[1]
 
-- 
2.43.0


From 706a8bbac975b01b85843ebb9a00a73d0752feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 13/34] fix: wrong power flows if the slack bus ID is not the
 lowest or bus IDs have gaps

---
 gym_anm/agents/mpc.py                |  2 +-
 gym_anm/simulator/simulator.py       |  9 ++++++---
 gym_anm/simulator/solve_load_flow.py | 24 +++++++++++++-----------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..ea96594 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -299,7 +299,7 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
         # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        constraints.append(V_bus_ang[self.bus_id_mapping[self.dev_to_bus[self.slack_dev_id]]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index f129213..4eab564 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -184,10 +184,13 @@ class Simulator(object):
         """
         Build the nodal admittance matrix of the network (in p.u.).
         """
-        n = max([i for i in self.buses.keys()])
-        Y_bus = np.zeros((n + 1, n + 1), dtype=np.complex128)
+        # Bus IDs need not be consecutive: rows and columns follow the order of `self.buses`.
+        idx = {bus_id: i for i, bus_id in enumerate(self.buses.keys())}
+        Y_bus = np.zeros((self.N_bus, self.N_bus), dtype=np.complex128)
+
+        for (f_bus, t_bus), br in self.branches.items():
+            f, t = idx[f_bus], idx[t_bus]
 
-        for (f, t), br in self.branches.items():
             # Fill an off-diagonal elements of the admittance matrix Y_bus.
             Y_bus[f, t] = -br.series / np.conjugate(br.tap)
             Y_bus[t, f] = -br.series / br.tap
diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..770daa8 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -29,27 +29,29 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
 
     # Collect P and Q nodal power injections (except slack bus).
     p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    for bus in simulator.buses.values():
+        if not bus.is_slack:
+            p.append(bus.p)
+            q.append(bus.q)
+
+    # Reorder the buses with the slack bus first, as assumed in the functions below.
+    slack_idx = [i for i, bus in enumerate(simulator.buses.values()) if bus.is_slack]
+    order = slack_idx + [i for i in range(simulator.N_bus) if i not in slack_idx]
+    Y = simulator.Y_bus[order, :][:, order]
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector.
-    V = _construct_v_from_guess(v)
+    V = np.zeros(simulator.N_bus, dtype=np.complex128)
+    V[order] = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(simulator.Y_bus.toarray(), V)
@@ -61,7 +63,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
 
         # Update slack bus power injection (set to np.inf if nan).
         if bus.is_slack:
-            s = V[0] * np.conj(I[0])
+            s = bus.v * np.conj(bus.i)
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-- 
2.43.0


From b4f819f674b5da8548ad2b021853cc1ec31fd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 14/34] fix: the voltage of the slack bus was always 1 p.u.
 instead of its VMAX

---
 gym_anm/simulator/solve_load_flow.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 770daa8..2adcf5b 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -44,14 +44,17 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y, x_tol=xtol)
+    v_slack = simulator.buses[list(simulator.buses.keys())[slack_idx[0]]].v_slack
+    v, n_iter, diff, converged = _newton_raphson_sparse(
+        v_guess, np.array(p), np.array(q), Y, x_tol=xtol, v_slack=v_slack
+    )
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector.
     V = np.zeros(simulator.N_bus, dtype=np.complex128)
-    V[order] = _construct_v_from_guess(v)
+    V[order] = _construct_v_from_guess(v, v_slack)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(simulator.Y_bus.toarray(), V)
@@ -83,7 +86,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return V, stable
 
 
-def _f(guess, p, q, Y):
+def _f(guess, p, q, Y, v_slack=1.0):
     """
     The function f(x) = 0 to be solved.
 
@@ -110,8 +113,8 @@ def _f(guess, p, q, Y):
         F[N-1,...,2(N-1)] the imaginary part of f(x).
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V.
+    v = _construct_v_from_guess(guess, v_slack)
 
     # Compute the difference between V (YV)^* and the real power injections S.
     s = p + 1j * q
@@ -122,7 +125,7 @@ def _f(guess, p, q, Y):
     return F
 
 
-def _dfdx(guess, Y):
+def _dfdx(guess, Y, v_slack=1.0):
     """
     Compute the Jacobian matrix.
 
@@ -142,8 +145,8 @@ def _dfdx(guess, Y):
         The Jacobian matrix as a sparse matrix.
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V.
+    v = _construct_v_from_guess(guess, v_slack)
 
     index = np.array(range(len(v)))
 
@@ -166,16 +169,16 @@ def _dfdx(guess, Y):
     return J
 
 
-def _construct_v_from_guess(guess):
+def _construct_v_from_guess(guess, v_slack=1.0):
     assert len(guess) % 2 == 0
     n = int(len(guess) / 2)
     v_nonslack = guess[n:] * np.exp(1j * guess[:n])
-    v = np.concatenate((np.array([1 + 0j]), v_nonslack))
+    v = np.concatenate((np.array([v_slack + 0j]), v_nonslack))
 
     return v
 
 
-def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
+def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100, v_slack=1.0):
     """
     Solve f(x) = 0 with initial v_guess for x and dfdx(x).
 
@@ -214,13 +217,13 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
     """
 
     n_iter = 0
-    F = _f(v_guess, p, q, Y)
+    F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y), F)
-        F = _f(v_guess, p, q, Y)
+        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
     converged = False if np.isnan(diff) else True
-- 
2.43.0


From 09e1908bc78ee4fcae9297d92795e9f195492a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 15/34] fix: injections of other devices at the slack bus were
 not balanced

---
 gym_anm/simulator/solve_load_flow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 2adcf5b..2b7ed3f 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -70,11 +70,12 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-    # Update slack device injections.
+    # Update slack device injections (other devices may be connected to the slack bus).
     for dev in simulator.devices.values():
         if dev.is_slack:
-            dev.p = simulator.buses[dev.bus_id].p
-            dev.q = simulator.buses[dev.bus_id].q
+            others = [d for d in simulator.devices.values() if d.bus_id == dev.bus_id and d is not dev]
+            dev.p = simulator.buses[dev.bus_id].p - sum(d.p for d in others)
+            dev.q = simulator.buses[dev.bus_id].q - sum(d.q for d in others)
 
     # Compute branch I_{ij}, P_{ij}, and Q_{ij} flows.
     for branch in simulator.branches.values():
-- 
2.43.0


From 700b910298d8c6501f3edc9117229732d1b5f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 16/34] fix: MPC agents crashed in networks without loads,
 generators or storage units

---
 gym_anm/agents/mpc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index ea96594..45b0f9a 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -102,9 +102,10 @@ class MPCAgent(object):
         self.P_dev_vars = []
 
         # Define time-varying parameters.
-        self.P_load_forecast = cp.Parameter((self.n_load, self.planning_steps))
-        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
-        self.init_soc = cp.Parameter(self.n_des, nonneg=True)
+        # (cvxpy does not support empty parameters; they are never used in that case).
+        self.P_load_forecast = cp.Parameter((max(1, self.n_load), self.planning_steps))
+        self.P_gen_forecast = cp.Parameter((max(1, self.n_gen - 1), self.planning_steps), nonneg=True)
+        self.init_soc = cp.Parameter(max(1, self.n_des), nonneg=True)
 
         # Define constants.
         bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
@@ -412,11 +413,14 @@ class MPCAgent(object):
 
         # Update the parameters of the optimization problem with the
         # forecasted values.
-        self.P_load_forecast.value = np.array(P_load_forecasts)
-        self.P_gen_forecast.value = np.array(P_gen_forecasts)
+        if self.n_load > 0:
+            self.P_load_forecast.value = np.array(P_load_forecasts)
+        if self.n_gen > 1:
+            self.P_gen_forecast.value = np.array(P_gen_forecasts)
 
         # Set the initial state of charge of DES units.
-        self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+        if self.n_des > 0:
+            self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
 
 
 def _make_list_eq_constraints(a, b):
-- 
2.43.0


From a1e581c9dbd406e933eee1cf3782139193bfb374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 17/34] fix: a viewer that connected before the init message
 never received it

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 4bb4b31..8278f78 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -119,6 +119,11 @@ class WsServer(object):
             self.init_client = client
             self.init_message = msg
 
+            # Clients that connected before the initial message also need it.
+            for other in list(self.clients.values()):
+                if other["id"] != client["id"]:
+                    server.send_message(other, msg)
+
         elif message["messageLabel"] == "update":
             server.send_message_to_all(msg)
 
-- 
2.43.0


From 8a4cc8b619d6f7201f4d7380c8e159554f1fa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 18/34] fix: invalid JSON (Infinity) sent to the viewer when
 costs are not clipped

---
 gym_anm/envs/anm6_env/anm6.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..424b09b 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -178,8 +178,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
-- 
2.43.0


From a7280c0c73d48443b2ccc2a62ea70b7fca3a07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 19/34] fix: ZeroDivisionError for storage units with an
 efficiency of 0

---
 gym_anm/simulator/components/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 4633eac..5c878ee 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -513,7 +513,7 @@ class StorageUnit(Device):
                 -self.rho_2,
                 -self.rho_3,
                 self.rho_4,
-                -(self.soc - self.soc_max) / (delta_t * self.eff),
+                -(self.soc - self.soc_max) / (delta_t * self.eff) if self.eff > 0 else np.inf,
                 self.eff * (self.soc - self.soc_min) / delta_t,
             ]
         )
@@ -543,7 +543,7 @@ class StorageUnit(Device):
         # Compute the new SoC.
         if self.p <= 0:
             self.soc -= delta_t * self.eff * self.p
-        else:
+        elif self.eff > 0:
             self.soc -= delta_t * self.p / self.eff
 
         # Clip the new state of charge to be in [soc_min, soc_max].
-- 
2.43.0


From da4f2849ec391460dab8dafe7b101ca9fb287e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 20/34] fix: TypeError in the first transition if the slack bus
 has no VMIN

---
 gym_anm/simulator/components/bus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..c26c1ab 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -94,6 +94,8 @@ class Bus(object):
         if self.v_min is None or self.v_min < 0:
             if not self.is_slack:
                 raise BusSpecError("The VMIN value for bus %d should be >= 0" % (self.id))
+            elif self.v_min is None:
+                self.v_min = self.v_max  # the voltage is fixed
 
         if not self.is_slack and self.v_max < self.v_min:
             raise BusSpecError("Bus %d has VMAX < VMIN" % (self.id))
-- 
2.43.0


From 92d65712521e34c43e6e1334851e5fe0a75bc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 21/34] fix: irreproducible projections and sporadic
 SolverError (OSQP's time-based step size); NaN injections with infinite Q
 limits

---
 gym_anm/simulator/components/devices.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 5c878ee..91b4672 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -279,6 +279,10 @@ class Generator(Device):
             self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
             self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
+        # No sloped constraint can be drawn from an infinite reactive power limit.
+        self.tau_1 = self.tau_1 if np.isfinite(self.tau_1) else 0.0
+        self.tau_2 = self.tau_2 if np.isfinite(self.tau_2) else 0.0
+
         self.rho_1 = self.q_max - (self.tau_1 * self.p_plus if self.tau_1 else 0.0)
         self.rho_2 = self.q_min - (self.tau_2 * self.p_plus if self.tau_2 else 0.0)
 
@@ -303,7 +307,7 @@ class Generator(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=25)
 
         self.p = x.value[0]
         self.q = x.value[1]
@@ -433,6 +437,10 @@ class StorageUnit(Device):
             self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
             self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
+        # No sloped constraint can be drawn from an infinite reactive power limit.
+        self.tau_1 = self.tau_1 if np.isfinite(self.tau_1) else 0.0
+        self.tau_2 = self.tau_2 if np.isfinite(self.tau_2) else 0.0
+
         self.rho_1 = self.q_max - (self.tau_1 * self.p_plus if self.tau_1 else 0.0)
         self.rho_2 = self.q_min - (self.tau_2 * self.p_plus if self.tau_2 else 0.0)
 
@@ -443,6 +451,9 @@ class StorageUnit(Device):
             self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min) if self.q_min != self.q_minus else 0.0
             self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min) if self.q_max != self.q_plus else 0.0
 
+        self.tau_3 = self.tau_3 if np.isfinite(self.tau_3) else 0.0
+        self.tau_4 = self.tau_4 if np.isfinite(self.tau_4) else 0.0
+
         self.rho_3 = self.q_min - (self.tau_3 * self.p_minus if self.tau_3 else 0.0)
         self.rho_4 = self.q_max - (self.tau_4 * self.p_minus if self.tau_4 else 0.0)
 
@@ -521,7 +532,7 @@ class StorageUnit(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=25)
 
         self.p = x.value[0]
         self.q = x.value[1]
-- 
2.43.0


From e40f065759b3b33a9fe7928474429211d19ef36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 22/34] fix: negative aux indices, malformed observation
 entries and NaN arguments were not refused as documented

---
 gym_anm/envs/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index e54872a..5c0593d 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -39,11 +39,11 @@ def check_env_args(K, delta_t, lamb, gamma, observation, aux_bounds, state_bound
 
     if K < 0:
         raise ArgsError("The argument K is %d but should be >= 0." % (K))
-    if delta_t <= 0:
+    if not delta_t > 0:
         raise ArgsError("The argument delta_t is %.2f but should be > 0." % (delta_t))
-    if lamb < 0:
-        raise ArgsError("The argument lamb is %d but should be >= 0." % (lamb))
-    if gamma < 0 or gamma > 1:
+    if not lamb >= 0:
+        raise ArgsError("The argument lamb is %s but should be >= 0." % (lamb))
+    if not 0 <= gamma <= 1:
         raise ArgsError("The argument gamma is %.4f but should be in [0, 1]." % (gamma))
 
     # Check that the observation space is correctly specified.
@@ -85,7 +85,7 @@ def _check_observation_vars(observation, state_bounds, K):
     """
 
     for obs in observation:
-        if len(obs) not in [2, 3]:
+        if not isinstance(obs, (tuple, list)) or len(obs) not in [2, 3]:
             raise ObsSpaceError("The observation tuple {} should be a list with " "2 or 3 elements.".format(obs))
 
         # Check that the observation variable is supported.
@@ -97,9 +97,9 @@ def _check_observation_vars(observation, state_bounds, K):
         nodes = obs[1]
         if isinstance(nodes, str) and nodes == "all":
             pass
-        elif key == "aux":
+        elif key == "aux" and isinstance(nodes, (tuple, list)):
             for n in nodes:
-                if n >= K:
+                if n < 0 or n >= K:
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
         elif isinstance(nodes, list):
             for n in nodes:
-- 
2.43.0


From df27cf1ec72d796a54344cfc2d61b1e72d65e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 23/34] fix: TypeError for a missing BUS_TYPE or DEV_TYPE;
 fractional BUS_TYPEs could add a second slack bus

---
 gym_anm/simulator/components/bus.py | 3 ++-
 gym_anm/simulator/simulator.py      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c26c1ab..c9fa46a 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -41,7 +41,7 @@ class Bus(object):
         """
 
         self.id = int(bus_spec[BUS_H["BUS_ID"]])
-        self.type = int(bus_spec[BUS_H["BUS_TYPE"]])
+        self.type = bus_spec[BUS_H["BUS_TYPE"]]
         self.baseKV = bus_spec[BUS_H["BASE_KV"]]
         self.v_max = bus_spec[BUS_H["VMAX"]]
         self.v_min = bus_spec[BUS_H["VMIN"]]
@@ -84,6 +84,7 @@ class Bus(object):
 
         if self.type is None or self.type not in [0, 1]:
             raise BusSpecError("The BUS_TYPE value for bus %d should be in [0, 1]" % (self.id))
+        self.type = int(self.type)
 
         if self.baseKV is None or self.baseKV <= 0:
             raise BusSpecError("The BASE_KV value for bus %d should be > 0" % (self.id))
diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 4eab564..02bc3bd 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -156,7 +156,7 @@ class Simulator(object):
 
         devices = {}
         for dev_spec in network["device"]:
-            dev_type = int(dev_spec[DEV_H["DEV_TYPE"]])
+            dev_type = dev_spec[DEV_H["DEV_TYPE"]]
 
             if dev_type == -1:
                 dev = Load(dev_spec, bus_ids, baseMVA)
-- 
2.43.0


From 23700eda33d602276480d9557cfbe97cc0a23001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 24/34] fix: TypeError instead of DeviceSpecError for a slack
 device without BUS_ID

---
 gym_anm/simulator/check_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/check_network.py b/gym_anm/simulator/check_network.py
index 2a7e890..efe1019 100644
--- a/gym_anm/simulator/check_network.py
+++ b/gym_anm/simulator/check_network.py
@@ -33,7 +33,7 @@ def check_network_specs(network):
     bus_of_dev = network["device"][np.where(np.array(dev_types) == 0)[0], DEV_H["BUS_ID"]]
     if slack_bus != bus_of_dev:
         raise DeviceSpecError(
-            "The slack bus ID of the slack device is %d but the actual slack bus has ID %d." % (bus_of_dev, slack_bus)
+            "The bus ID of the slack device is %s but the actual slack bus has ID %s." % (bus_of_dev[0], slack_bus[0])
         )
 
     # Check buses have unique IDs.
-- 
2.43.0


From 52f77b65da3db1a990da5d35504e045ff23c670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 25/34] fix: MPC agents crashed (solver panic) with unbounded
 power limits or unrated branches

---
 gym_anm/agents/mpc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 45b0f9a..7f81007 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -310,6 +310,8 @@ class MPCAgent(object):
 
         cost_2 = 0.0
         for p, rate in zip(P_branch, self.branch_rate):
+            if np.isinf(rate):  # a branch without rating is never overloaded
+                continue
             cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
 
         obj = cost_1 + self.lamb * cost_2
@@ -442,4 +444,9 @@ def _make_list_le_constraints(a, b):
         n = len(b)
     else:
         raise ValueError()
-    return [a[i] <= b[i] for i in range(n)]
+
+    # Solvers do not support infinite coefficients: leave out non-binding constraints.
+    def is_binding(i):
+        return not any(np.isscalar(x[i]) and np.isinf(x[i]) for x in (a, b))
+
+    return [a[i] <= b[i] for i in range(n) if is_binding(i)]
-- 
2.43.0


From 08189acc7afc525516175e1d340cb68bd5f6f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 26/34] fix: modifying an observation that is (a view of) s_t
 modified the environment's state

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index e57d73a..6848930 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -292,7 +292,7 @@ class ANMEnv(gym.Env):
         self.state = self._construct_state()
 
         # Construct the initial observation vector.
-        obs = self.observation(self.state)
+        obs = self.observation(self.state.copy())
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
@@ -439,7 +439,7 @@ class ANMEnv(gym.Env):
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-            obs = self.observation(self.state)
+            obs = self.observation(self.state.copy())
 
             err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
             assert self.observation_space.contains(obs), err_msg
-- 
2.43.0


From e3e5bd550ba5c621db331e3bc8520b55adfe67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 27/34] fix: the displayed date fell behind if the time step is
 not a whole number of minutes

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 424b09b..1cdc2fc 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=float(delta_t))
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0


From bc15c2304d886a2ca6ac369e83c3c9416595d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 28/34] fix: reset_date() did not reset the year count

---
 gym_anm/envs/anm6_env/anm6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 1cdc2fc..5a67624 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -144,6 +144,7 @@ class ANM6(ANMEnv):
         """Reset the date displayed in the visualization (and the year count)."""
         self.date_init = date_init
         self.date = date_init
+        self.year_count = 0
 
     def _init_render(self, network_specs):
         """
-- 
2.43.0


From b1b9bd1e0862f5e505f4cad46f487a03298926ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 29/34] fix: the viewer was sent invalid JSON (NaN, Infinity)
 if the network collapsed

---
 .../envs/anm6_env/rendering/py/rendering.py   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 7c45bed..42a0e20 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -1,6 +1,7 @@
 import webbrowser
 import json
 import os
+import numpy as np
 import requests
 from websocket import create_connection
 import time
@@ -147,13 +148,13 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
             "messageLabel": "update",
             "time": time_array,
             "yearCount": year_count,
-            "pInjections": p,
-            "qInjections": q,
-            "sFlows": s,
-            "socStorage": soc,
-            "pPotential": p_potential,
-            "vMagn": bus_v_magn,
-            "reward": costs,
+            "pInjections": _finite(p),
+            "qInjections": _finite(q),
+            "sFlows": _finite(s),
+            "socStorage": _finite(soc),
+            "pPotential": _finite(p_potential),
+            "vMagn": _finite(bus_v_magn),
+            "reward": _finite(costs),
             "networkCollapsed": network_collapsed,
         }
     )
@@ -165,6 +166,16 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
     return
 
 
+def _finite(values):
+    """
+    Replace NaN by 0 and infinite values by the largest floats.
+
+    The electrical quantities are not finite if the network collapsed (and the
+    costs if they are not clipped), which cannot be represented in JSON.
+    """
+    return [float(v) for v in np.nan_to_num(values)]
+
+
 def close(http_server, ws_server):
     """
     Terminate the parallel processes running the HTTP and WebSocket servers.
-- 
2.43.0


From c8b4438a47568b6c4004cb7079e19e4b6cbbf8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 30/34] fix: unsupported rendering modes were accepted after
 the first render()

---
 gym_anm/envs/anm6_env/anm6.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 5a67624..b6f5534 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -78,10 +78,10 @@ class ANM6(ANMEnv):
            :py:func`render()` less frequently.
         """
 
-        if self.render_mode is None:
-            if mode not in ["human"]:
-                raise NotImplementedError()
+        if mode not in ["human"]:
+            raise NotImplementedError()
 
+        if self.render_mode is None:
             # Render the initial image of the distribution network.
             self.render_mode = mode
             self.skipped_frames = 0
-- 
2.43.0


From 8733e9a47dd8f3a000814f92c5fc246a947d8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 31/34] fix: the running viewer was forgotten (and a second one
 started) after a reset that failed

---
 gym_anm/envs/anm6_env/anm6.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index b6f5534..cf088c0 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -125,10 +125,11 @@ class ANM6(ANMEnv):
         # Save rendering setup to restore after the reset().
         render_mode = self.render_mode
 
-        obs, info = super().reset(seed=seed, options=options)
-
-        # Restore the rendering setup.
-        self.render_mode = render_mode
+        try:
+            obs, info = super().reset(seed=seed, options=options)
+        finally:
+            # Restore the rendering setup.
+            self.render_mode = render_mode
 
         # Reset the date (for rendering).
         self.year_count = 0
-- 
2.43.0


From 8f1cc6554613ef1b758017dc30d1de260aead968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 32/34] fix: lines loaded below 0.5 % kept the colour of the
 previous update

---
 gym_anm/envs/anm6_env/rendering/js/devices.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/rendering/js/devices.js b/gym_anm/envs/anm6_env/rendering/js/devices.js
index 46df9f3..ab3daff 100644
--- a/gym_anm/envs/anm6_env/rendering/js/devices.js
+++ b/gym_anm/envs/anm6_env/rendering/js/devices.js
@@ -216,7 +216,7 @@ class TransmissionLine {
 
     // Compute the % to be displayed next to the bar.
     let percentage = 100 * (current_magn - this.iMin) / (this.iMax - this.iMin);
-    let barColor = this.colorGradient[Math.round(Math.min(100, percentage)) - 1];
+    let barColor = this.colorGradient[Math.max(1, Math.round(Math.min(100, percentage))) - 1];
 
     // Update the height and color of the bar.
     svgNetwork.getElementById(this.iCurrentRect).setAttribute('height', barHeight);
-- 
2.43.0


From 5a229fae1c4785387736be86914ef21ebc990bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 33/34] fix: the initial state was not displayed when rendering
 with skip_frames > 0

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index cf088c0..f5e322d 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -84,7 +84,7 @@ class ANM6(ANMEnv):
         if self.render_mode is None:
             # Render the initial image of the distribution network.
             self.render_mode = mode
-            self.skipped_frames = 0
+            self.skipped_frames = skip_frames  # so that the initial state is not skipped
             rendered_network_specs = ["dev_type", "dev_p", "dev_q", "branch_s", "bus_v", "des_soc"]
             specs = {s: self.network_specs[s] for s in rendered_network_specs}
             self._init_render(specs)
-- 
2.43.0


From 26fcf704d93f125ccf61c062abfcf5ea1dc3bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 34/34] fix: viewers joining or leaving while messages are sent
 could disturb other viewers (missed, repeated or early messages)

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 8278f78..adf313a 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -3,6 +3,7 @@ import os
 import sys
 import io
 import socket
+import threading
 from contextlib import redirect_stdout
 from http.server import HTTPServer, SimpleHTTPRequestHandler
 from multiprocessing import Process
@@ -11,6 +12,39 @@ from websocket_server import WebsocketServer
 from .constants import RENDERING_LOGS, ROOT_FOLDER
 
 
+class _SynchronizedWebsocketServer(WebsocketServer):
+    """
+    A WebSocket server which handles one event at a time.
+
+    Each connection is handled in a separate thread. Clients that join or leave
+    while a message is being sent must not disturb the other ones.
+    """
+
+    _lock = threading.RLock()
+
+    def _new_client_(self, handler):
+        with self._lock:
+            super()._new_client_(handler)
+
+    def _message_received_(self, handler, msg):
+        with self._lock:
+            super()._message_received_(handler, msg)
+
+    def _client_left_(self, handler):
+        with self._lock:
+            super()._client_left_(handler)
+
+    def send_message(self, client, msg):
+        try:
+            super().send_message(client, msg)
+        except OSError:  # the client disconnected abruptly
+            print("Error in sending a message to client %s" % client["id"])
+
+    def send_message_to_all(self, msg):
+        for client in list(self.clients):
+            self.send_message(client, msg)
+
+
 class WsServer(object):
     """
     Encapsulates a WebSocket server.
@@ -68,7 +102,7 @@ class WsServer(object):
         """Start the WebSocket server and keep it running."""
 
         # Create websocket server.
-        server = WebsocketServer(self.PORT, self.HOST)
+        server = _SynchronizedWebsocketServer(self.PORT, self.HOST)
         server.set_fn_client_left(self.client_left)
         server.set_fn_new_client(self.new_client)
         server.set_fn_message_received(self.msg_received)
-- 
2.43.0

