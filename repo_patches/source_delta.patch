From 56c263330ea59ebf64e9a10b0c3d520b0d383cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/39] fix: rectangle/ellipse containment uses the right
 rotation and rectangle intersection is exact

---
 highway_env/utils.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..a46828b 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,8 +64,8 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
-    ru = r.dot(point - center)
+    r = np.array([[c, s], [-s, c]])  # Rotation of -angle, from the world frame to the rectangle frame
+    ru = r.dot(np.asarray(point) - np.asarray(center))
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
 
@@ -81,8 +81,8 @@ def point_in_ellipse(point: Vector, center: Vector, angle: float, length: float,
     :return: is the point inside the ellipse
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.matrix([[c, -s], [s, c]])
-    ru = r.dot(point - center)
+    r = np.array([[c, s], [-s, c]])  # Rotation of -angle, from the world frame to the ellipse frame
+    ru = r.dot(np.asarray(point) - np.asarray(center))
     return np.sum(np.square(ru / np.array([length, width]))) < 1
 
 
@@ -95,7 +95,18 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    # Separating axis theorem: two rectangles are disjoint iff their projections on one of their edges directions are.
+    axes, half_extents = [], []
+    for _, length, width, angle in (rect1, rect2):
+        c, s = np.cos(angle), np.sin(angle)
+        axes.append(np.array([[c, s], [-s, c]]))
+        half_extents.append(np.array([length / 2, width / 2]))
+    delta = np.asarray(rect2[0]) - np.asarray(rect1[0])
+    for axis in np.concatenate(axes):
+        reach = sum(h.dot(np.abs(a.dot(axis))) for a, h in zip(axes, half_extents))
+        if np.abs(delta.dot(axis)) > reach:
+            return False
+    return True
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From 412739db17db2d4cc5df9b901f5b87c20de70bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 02/39] fix: saturate the reverse speed at -MAX_SPEED instead
 of forcing a forward acceleration

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From b8b3da3ec924d42dd109d835e262717de3269e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 03/39] fix: keep a null target speed or timer when creating a
 vehicle

---
 highway_env/vehicle/behavior.py   | 2 +-
 highway_env/vehicle/controller.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..1721b09 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -55,7 +55,7 @@ class IDMVehicle(ControlledVehicle):
                  timer: float = None):
         super().__init__(road, position, heading, speed, target_lane_index, target_speed, route)
         self.enable_lane_change = enable_lane_change
-        self.timer = timer or (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
+        self.timer = timer if timer is not None else (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
 
     def randomize_behavior(self):
         pass
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..81807a7 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
-- 
2.43.0


From 5887365cf9e09cafedf49ab5b2982e65ba08e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 04/39] fix: missing factor in the steering gain of the
 linearised yaw dynamics

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 0c32331d528dd56bc22e0863902b76688327f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 05/39] fix: enumerate paths in a deterministic order,
 independent of the string hash seed

---
 highway_env/road/road.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..4cdd448 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,9 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in self.graph[node].keys():
+                if _next in path:
+                    continue
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From b22b2431a189f984ef63301e39c79a33df478473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 06/39] fix: observing a single vehicle does not include the
 whole traffic

---
 highway_env/envs/common/observation.py | 2 +-
 highway_env/road/road.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..1cf4aa4 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -199,7 +199,7 @@ class KinematicObservation(ObservationType):
             origin = self.observer_vehicle if not self.absolute else None
             df = df.append(pd.DataFrame.from_records(
                 [v.to_dict(origin, observe_intentions=self.observe_intentions)
-                 for v in close_vehicles[-self.vehicles_count + 1:]])[self.features],
+                 for v in close_vehicles])[self.features],
                            ignore_index=True)
         # Normalize and clip
         if self.normalize:
diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index 4cdd448..12e087c 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -265,7 +265,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From 84ed15e5f06a53b76d3004ed3d052830abb5ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/39] fix: HighwayEnv.default_config is a class method, as in
 the other environments

---
 highway_env/envs/highway_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index b723ddd..1bf2a93 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -26,7 +26,8 @@ class HighwayEnv(AbstractEnv):
     LANE_CHANGE_REWARD: float = 0
     """The reward received at each lane change action."""
 
-    def default_config(self) -> dict:
+    @classmethod
+    def default_config(cls) -> dict:
         config = super().default_config()
         config.update({
             "observation": {
-- 
2.43.0


From 599bac61422b48356577954178f79441ab22607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 08/39] fix: intersection-multi-agent-v1 wraps an environment
 instance rather than a class

---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..7e79eda 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self, config: dict = None) -> None:
+        super().__init__(MultiAgentIntersectionEnv(config))
 
 
 register(
-- 
2.43.0


From 981290630a7a5ef0ee8d614ed6c6a526048b49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/39] fix: ignore the lane-left key when lateral actions are
 disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..f391703 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From 741093f99a6b76c758e58daed53101d87fba38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 10/39] fix: decode the displayed agent action sequence with
 the env action type

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index f391703..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From 344d4d0e38369d1de230c161dde3651d8bf09f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 11/39] fix: the roundabout speed range is set on its
 ego-vehicle, not on the class shared by all environments

---
 highway_env/envs/roundabout_env.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..8deff3a 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -138,9 +138,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.SPEED_MIN = 0
+            ego_vehicle.SPEED_MAX = 16
+            ego_vehicle.SPEED_COUNT = 3
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From 39d16dde82049a037eb163419b37c831cc9d534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 12/39] fix: OccupancyGridObservation can be used with its
 default grid step

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 1cf4aa4..7c7d5ac 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,7 +242,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
-- 
2.43.0


From d3a54289374c76ed87f25222903a87c6592bf059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 13/39] fix: occupancy grid cells of non-square grids, and
 vehicles out of the grid counted in its first cells

---
 highway_env/envs/common/observation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 7c7d5ac..b819d34 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *np.flip(grid_shape)))  # axes: features, y, x
         self.features_range = features_range
         self.absolute = absolute
 
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From bd0e4dbb4e3460a87800573a99b23d9bcab66cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 14/39] fix: grayscale observations are the W x H image of the
 scene, within the bounds of their space

---
 docs/source/observations/index.rst     | 4 ++--
 highway_env/envs/common/observation.py | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/docs/source/observations/index.rst b/docs/source/observations/index.rst
index 48f08c6..9e33005 100644
--- a/docs/source/observations/index.rst
+++ b/docs/source/observations/index.rst
@@ -161,7 +161,7 @@ Example configuration
 
     _, axes = plt.subplots(ncols=4, figsize=(12, 5))
     for i, ax in enumerate(axes.flat):
-        ax.imshow(obs[..., i], cmap=plt.get_cmap('gray'))
+        ax.imshow(obs[..., i].T, cmap=plt.get_cmap('gray'))
     plt.show()
 
 Illustration of the stack mechanism
@@ -176,7 +176,7 @@ We illustrate the stack update by performing three steps in the environment.
 
         _, axes = plt.subplots(ncols=4, figsize=(12, 5))
         for i, ax in enumerate(axes.flat):
-            ax.imshow(obs[..., i], cmap=plt.get_cmap('gray'))
+            ax.imshow(obs[..., i].T, cmap=plt.get_cmap('gray'))
     plt.show()
 
 Occupancy grid
diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index b819d34..bad155b 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,14 +69,13 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
 
     def observe(self) -> np.ndarray:
-        new_obs = self._record_to_grayscale()
-        new_obs = np.reshape(new_obs, self.observation_shape)
+        new_obs = np.transpose(self._record_to_grayscale())  # Image (H, W) to observation (W, H)
         self.state = np.roll(self.state, -1, axis=-1)
         self.state[:, :, -1] = new_obs
         return self.state
-- 
2.43.0


From cf5be3371b80fd9b4068fd7a494611312c7dfcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 15/39] fix: change_vehicles and set_vehicle_field do not touch
 the controlled vehicles

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..82c14ab 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -335,7 +335,7 @@ class AbstractEnv(gym.Env):
         env_copy = copy.deepcopy(self)
         vehicles = env_copy.road.vehicles
         for i, v in enumerate(vehicles):
-            if v is not env_copy.vehicle:
+            if v not in env_copy.controlled_vehicles:
                 vehicles[i] = vehicle_class.create_from(v)
         return env_copy
 
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v not in env_copy.controlled_vehicles:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From f7360eaa84da7ec5ed766795049bd6151edca883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 16/39] fix: set_preferred_lane with vehicles that follow no
 planned route

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 82c14ab..6361bbc 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -344,7 +344,7 @@ class AbstractEnv(gym.Env):
         if preferred_lane:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From ef4ec96f03a23bc0fec1b5b45b3ef284554d69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 17/39] fix: destination of a route that ends on a road with
 several lanes

---
 highway_env/vehicle/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 01ebc5d..5b753c1 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -215,7 +215,8 @@ class Vehicle(object):
     @property
     def destination(self) -> np.ndarray:
         if getattr(self, "route", None):
-            last_lane = self.road.network.get_lane(self.route[-1])
+            _from, _to, _id = self.route[-1]
+            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))
             return last_lane.position(last_lane.length, 0)
         else:
             return self.position
-- 
2.43.0


From 271a1af393f45eee994bab6898f638cfbdfb028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 18/39] fix: stale image rendered after a reset, several steps,
 or in a new viewer

---
 highway_env/envs/common/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 6361bbc..aa20108 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
@@ -239,6 +241,7 @@ class AbstractEnv(gym.Env):
 
         if self.viewer is None:
             self.viewer = EnvViewer(self)
+            self.should_update_rendering = True
 
         self.enable_auto_render = True
 
-- 
2.43.0


From 25f4d471e429e978abd1024f9a7a1e28e4d9b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 19/39] fix: remove all vehicles too close to the ego-vehicle,
 without skipping any during iteration

---
 highway_env/envs/intersection_env.py | 2 +-
 highway_env/envs/summon_env.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 7e79eda..7167ebd 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in self.road.vehicles[:]:  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..d17ec1a 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in self.road.vehicles[:]:  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From 3e2941bfc2e233684ddf1d24c4f8e8a4d0e6dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 20/39] fix: constant-speed prediction at the end of a lane
 that was already dropped from the route

---
 highway_env/vehicle/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 81807a7..cd752b4 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -193,6 +193,8 @@ class ControlledVehicle(Vehicle):
         """
         coordinates = self.lane.local_coordinates(self.position)
         route = self.route or [self.lane_index]
+        if route[0][:2] != self.lane_index[:2] and route[0][0] == self.lane_index[1]:
+            route = [self.lane_index] + route  # The current lane has already been dropped from the route
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 6c4d2a61f083070b6e64d8a7d8030ccd11e09242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 21/39] fix: size the time-to-collision grid with the lanes of
 the observer vehicle

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From d30b6d39477cc4eec2038f3206ae5f35335e0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 22/39] fix: keep the last lane of a possible route once it is
 reached

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..9ff1a4b 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -81,7 +81,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0


From e551f1cbc54ca3e399945423ae6de8d1e2c8aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 23/39] fix: moving the camera does not alter the environment
 configuration

---
 highway_env/envs/common/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 2b9ecd4..6235d89 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,8 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position",
+                                                              self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
-- 
2.43.0


From fefe7e25e650a0c2f74eabf30ef4defaa8d26388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 24/39] fix: an LPV system without control can be stepped

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..b76185d 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From 716ac11f61ffc3056deab6030bbd4cf47dd90e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 25/39] fix: LPV coordinates changes do not alter their input

---
 highway_env/interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index b76185d..5beda68 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -258,16 +258,16 @@ class LPV(object):
             else:
                 return transformation_inv @ value @ transformation
         elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
+            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
         else:
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 12809baf89519e7118b1e26e438e36c36fea9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 26/39] fix: LPV state, state interval and perturbation are
 expressed in the same coordinates as its dynamics

---
 highway_env/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 5beda68..4fa24ba 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,7 +220,9 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.d = self.change_coordinates(self.d, offset=False)
+        self.x_t = self.change_coordinates(self.x_t)
+        self.x_i_t = np.array(self.change_coordinates(self.x_i, interval=True))
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From c3c175a007477d4d18002f84aa05493d59d6d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 27/39] fix: linear vehicles can reason about vehicles that
 have no target speed

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 1721b09..d15ca8e 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -359,7 +359,7 @@ class LinearVehicle(IDMVehicle):
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
         if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+            vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From 6f058a0c999aba9d1891f275d85c94903a17d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 28/39] fix: linear vehicles do not expect the obstacles behind
 them to react

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index d15ca8e..95a5ff9 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,7 +358,7 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
             vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
-- 
2.43.0


From 3aac7f6a2986c9f7f2394bf485490f2defbcb87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 29/39] fix: the lane of index 0 can be the planned lane of a
 route

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 95a5ff9..06a687e 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -249,7 +249,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From 946625865b8ea70edba0eea9dd69cca0f738a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 30/39] fix: the lane of index 0 can be the preferred lane

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index aa20108..8358ac4 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -344,7 +344,7 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
                     v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
-- 
2.43.0


From a2c8235514de8bda20c459403391e5f1acdebe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 31/39] fix: routes offered at an intersection only use
 existing lanes

---
 highway_env/vehicle/controller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index cd752b4..c8d8d28 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -164,9 +164,11 @@ class ControlledVehicle(Vehicle):
                 break
         else:
             return [self.route]
-        next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
-                  for destination in next_destinations_from]
+        lane_id = self.route[index][2]
+        # Stay on the same lane, if it exists on the next road
+        routes = [self.route[0:index+1] + [(self.route[index][1], destination,
+                                            min(lane_id, len(lanes) - 1) if lane_id is not None else None)]
+                  for destination, lanes in next_destinations.items()]
         return routes
 
     def set_route_at_intersection(self, _to: int) -> None:
-- 
2.43.0


From 1f4f287b0076f27a58941cf51976de9e226b828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 32/39] fix: two-way reward on a road with a single lane
 (division by zero after the end of the road)

---
 highway_env/envs/two_way_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..6d03aac 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -47,7 +47,8 @@ class TwoWayEnv(AbstractEnv):
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
         reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) \
+                 / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From fafaa0cb249044c53f040315b0e2a02c019da864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 33/39] fix: LPV systems of dimension one keep the shape of
 their intervals

---
 highway_env/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 4fa24ba..e3698b1 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -247,12 +247,12 @@ class LPV(object):
         transformation, transformation_inv = self.coordinates
         if interval:
             if back:
-                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze() + \
+                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(-1) + \
                         offset * np.array([self.center, self.center])
                 return value
             else:
                 value = value - offset * np.array([self.center, self.center])
-                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze()
+                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze(-1)
                 return value
         elif matrix:  # Matrix
             if back:
-- 
2.43.0


From e5c66967c769e5da9d2590bc9aa4729db464b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 34/39] fix: LPV systems with complex eigenvalues are centred
 too

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index e3698b1..400ac37 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -213,6 +213,7 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
+                self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))  # No rotation, centering only
         else:
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
-- 
2.43.0


From 08376d3777831d58d5580c4c6a470e7e8559bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 35/39] fix: predicted trajectories do not lose a step to the
 rounding of durations

---
 highway_env/vehicle/controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index c8d8d28..0b91d95 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -292,12 +292,14 @@ class MDPVehicle(ControlledVehicle):
         states = []
         v = copy.deepcopy(self)
         t = 0
+        action_steps = int(action_duration / dt + 1e-6)  # 0.3 / 0.1 is slightly less than 3
+        trajectory_steps = int(trajectory_timestep / dt + 1e-6)
         for action in actions:
             v.act(action)  # High-level decision
-            for _ in range(int(action_duration / dt)):
+            for _ in range(action_steps):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % trajectory_steps) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From d7cbd643353fbef156bc29a45067a3cb63ae1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 36/39] fix: driving a copy made by assume_model_is_valid
 leaves the original's routes and data alone

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 9ff1a4b..67b52d0 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -103,6 +104,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)
         return vehicle
-- 
2.43.0


From be8ba9af93d0aa4327c249c37a0086a921537185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 37/39] fix: the interval observer takes headings modulo 2 pi

---
 highway_env/vehicle/uncertainty/prediction.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..6604de8 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -160,10 +160,13 @@ class IntervalVehicle(LinearVehicle):
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        def has_angle(angle: float) -> bool:
+            return np.ceil((psi_i[0] - angle) / (2*np.pi)) <= np.floor((psi_i[1] - angle) / (2*np.pi))
+
+        cos_i = [-1 if has_angle(np.pi) else min(map(np.cos, psi_i)),
+                 1 if has_angle(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if has_angle(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if has_angle(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From f41d189ed85041fff8dc82aa209570e45886af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 38/39] fix: an interval vehicle created without data can drive

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 6604de8..d6a7378 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From 24031d6b189a1104d9041aaf1eccc0516c32a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 39/39] fix: draw the border lines of arcs that start across
 the circle from the window corner

---
 highway_env/road/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..47f0853 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -123,6 +123,7 @@ class LaneGraphics(object):
         """
         stripes_count = int(2 * (surface.get_height() + surface.get_width()) / (cls.STRIPE_SPACING * surface.scaling))
         s_origin, _ = lane.local_coordinates(surface.origin)
+        s_origin = np.clip(s_origin, 0, lane.length)
         s0 = (int(s_origin) // cls.STRIPE_SPACING - stripes_count // 2) * cls.STRIPE_SPACING
         for side in range(2):
             if lane.line_types[side] == LineType.STRIPED:
-- 
2.43.0

