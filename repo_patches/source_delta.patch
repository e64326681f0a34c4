From d72838300ef27888660e7498b57e6b560755b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/56] fix: test point in rotated rectangle in the frame of
 the rectangle

The point was rotated by +angle instead of -angle, so that rotated vehicles
were tested for collision against mirrored rectangles.
---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..2be8729 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])  # world frame -> rectangle frame
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From 789cf3d50d45f9641953c8067443be98ac7d503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 02/56] fix: detect rectangles that cross each other without
 containing each other's corners

---
 highway_env/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 2be8729..e1d4294 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,7 +95,17 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    if has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1):
+        return True
+    # Rectangles may also cross each other without containing each other's corners: look for a separating axis
+    (c1, l1, w1, a1), (c2, l2, w2, a2) = rect1, rect2
+    delta = np.array(c2) - np.array(c1)
+    for axis_angle in [a1, a1 + np.pi/2, a2, a2 + np.pi/2]:
+        extent = sum(abs(length/2 * np.cos(axis_angle - angle)) + abs(width/2 * np.sin(axis_angle - angle))
+                     for length, width, angle in [(l1, w1, a1), (l2, w2, a2)])
+        if abs(delta.dot([np.cos(axis_angle), np.sin(axis_angle)])) > extent:
+            return False
+    return True
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From ced9fda5779a8f3d8fdf1c18de79ff0a9bb64bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/56] fix: set the speeds of the roundabout ego-vehicle on
 this vehicle only

They were written on the MDPVehicle class, which changed the speeds and the
observation ranges of every other environment, and came too late for the first
ego-vehicle itself, which was given a target speed of 20 m/s.
---
 highway_env/envs/roundabout_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..4f03229 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -39,8 +39,9 @@ class RoundaboutEnv(AbstractEnv):
 
     def _reward(self, action: int) -> float:
         lane_change = action == 0 or action == 2
+        speed_index = getattr(self.vehicle, "speed_index", MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed))
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
-                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
+                 + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
         return utils.lmap(reward, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])
 
@@ -138,9 +139,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        ego_vehicle.SPEED_MIN = 0
+        ego_vehicle.SPEED_MAX = 16
+        ego_vehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From 57905a2247781d774727f3bee8f176645c09fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/56] fix: do not skip vehicles when removing those too close
 to the ego-vehicle

The list was modified while iterating over it.
---
 highway_env/envs/intersection_env.py | 2 +-
 highway_env/envs/summon_env.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..832bcb3 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in self.road.vehicles[:]:  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..d17ec1a 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in self.road.vehicles[:]:  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From 9542cff18ae241ae7c278104eca622364e1c8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/56] fix: make intersection-multi-agent-v1 constructible

The wrapper was given the environment class instead of an environment.
---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 832bcb3..66efdbe 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self):
+        super().__init__(MultiAgentIntersectionEnv())
 
 
 register(
-- 
2.43.0


From 8a0693482f1f97f0308e29cfdffb4fbac328e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/56] fix: observe no other vehicle when only one is asked
 for

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..2e56e3f 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From cd3eafa0afaad0e8f519837977e1636e773ee731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 07/56] fix: do not let string hashing choose among shortest
 routes

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index 2e56e3f..a31a79e 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,7 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in [n for n in self.graph[node].keys() if n not in path]:
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From 3748707107c5296c2121f64b5217d88f7901a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/56] fix: occupancy grid with default step, or with
 different extents along x and y

The default grid step was not used to compute the shape of the grid, whose axes
were in (x, y) order while cells are filled in (y, x) order.
---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..50b5c8c 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,8 +242,8 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
+        self.grid = np.zeros((len(self.features), *reversed(grid_shape)))  # cells are indexed by (feature, y, x)
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From 04ff68216d3033344595910a8726587ff3fa7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/56] fix: leave vehicles just outside the occupancy grid out
 of its first cells

---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 50b5c8c..22371ff 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From 0be38d747affa882bb38d403c13a4c39abdf92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 10/56] fix: declare the range of grayscale pixels

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 22371ff..b645b7e 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,7 +69,7 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
-- 
2.43.0


From 52f43d57e9a12864028f2926967c8fc81640fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/56] fix: set the preferred lane of vehicles that have no
 route

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..90922f1 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -344,7 +344,7 @@ class AbstractEnv(gym.Env):
         if preferred_lane:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From b222defa7ff70e0dbf986c58fe5358a2d8c75de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/56] fix: leave the ego-vehicle unchanged when setting a
 field of the other vehicles

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 90922f1..74a1f3e 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From 2d905a98becafe053bb212fb17035c23e22055b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 13/56] fix: keep every controlled vehicle when simplifying or
 changing the traffic

---
 highway_env/envs/common/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 74a1f3e..2d3c2af 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -317,8 +317,9 @@ class AbstractEnv(gym.Env):
         :return: a simplified environment state
         """
         state_copy = copy.deepcopy(self)
-        state_copy.road.vehicles = [state_copy.vehicle] + state_copy.road.close_vehicles_to(
-            state_copy.vehicle, self.PERCEPTION_DISTANCE)
+        close_vehicles = state_copy.road.close_vehicles_to(state_copy.vehicle, self.PERCEPTION_DISTANCE)
+        state_copy.road.vehicles = state_copy.controlled_vehicles + \
+            [v for v in close_vehicles if v not in state_copy.controlled_vehicles]
 
         return state_copy
 
@@ -335,7 +336,7 @@ class AbstractEnv(gym.Env):
         env_copy = copy.deepcopy(self)
         vehicles = env_copy.road.vehicles
         for i, v in enumerate(vehicles):
-            if v is not env_copy.vehicle:
+            if v not in env_copy.controlled_vehicles:
                 vehicles[i] = vehicle_class.create_from(v)
         return env_copy
 
-- 
2.43.0


From 494472a61d4a00ad29d4b7ce4f4412b52dffe0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 14/56] fix: list the available lane changes with respect to
 the lane being followed

During a lane change, actions that do change the target lane were reported as
unavailable, and actions that have no effect as available.
---
 highway_env/envs/common/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 2d3c2af..dffddb2 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -276,12 +276,13 @@ class AbstractEnv(gym.Env):
         if not isinstance(self.action_type, DiscreteMetaAction):
             raise ValueError("Only discrete meta-actions can be unavailable.")
         actions = [self.action_type.actions_indexes['IDLE']]
-        for l_index in self.road.network.side_lanes(self.vehicle.lane_index):
-            if l_index[2] < self.vehicle.lane_index[2] \
+        target_lane_index = self.vehicle.target_lane_index
+        for l_index in self.road.network.side_lanes(target_lane_index):
+            if l_index[2] < target_lane_index[2] \
                     and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \
                     and self.action_type.lateral:
                 actions.append(self.action_type.actions_indexes['LANE_LEFT'])
-            if l_index[2] > self.vehicle.lane_index[2] \
+            if l_index[2] > target_lane_index[2] \
                     and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \
                     and self.action_type.lateral:
                 actions.append(self.action_type.actions_indexes['LANE_RIGHT'])
-- 
2.43.0


From 68ef8397d44105078158803ff6c94a67ad4d7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 15/56] fix: render the current state after a reset, or a step
 without automatic rendering

---
 highway_env/envs/common/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index dffddb2..efdfada 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -163,6 +163,7 @@ class AbstractEnv(gym.Env):
         self.time = self.steps = 0
         self.done = False
         self._reset()
+        self.should_update_rendering = True
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
 
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
-- 
2.43.0


From 8e7137ccc2f11fd8b8d7d235502af23e785d33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 16/56] fix: orient objects made on a lane along this lane

The heading of the lane was used as the speed of the object.
---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From db590442e2d67051235717550f4274f18608c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 17/56] fix: bring vehicles reversing too fast back to the
 maximum reverse speed

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From a40ec5c395685224515a843b55f1bee20e85214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 18/56] fix: ignore the lane change key when lane changes are
 disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..f391703 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From 50d250a7be2bbc72076fc8a918144f3c6fd5fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 19/56] fix: use the lanes of the observer in its
 time-to-collision grid

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From b350f435a69b3de55ce528229c6c37dfe33bd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 20/56] fix: let routes end on roads of several lanes without
 specifying the lane

---
 highway_env/vehicle/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 01ebc5d..035c1c2 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -215,7 +215,8 @@ class Vehicle(object):
     @property
     def destination(self) -> np.ndarray:
         if getattr(self, "route", None):
-            last_lane = self.road.network.get_lane(self.route[-1])
+            _from, _to, _id = self.route[-1]
+            last_lane = self.road.network.get_lane((_from, _to, _id or 0))  # The lane may not be specified
             return last_lane.position(last_lane.length, 0)
         else:
             return self.position
-- 
2.43.0


From a94809efb7616287c9757a090ecc62fdd9fdd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 21/56] fix: let linear vehicles reason about vehicles and
 objects without target speed

---
 highway_env/vehicle/behavior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..41687a0 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,8 +358,8 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
+            vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From 2ef72b6beddb759c82ebb2ea029e4136ec80de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 22/56] fix: predict trajectories along routes that do not
 specify lanes

---
 highway_env/vehicle/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..bf79619 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -191,8 +191,11 @@ class ControlledVehicle(Vehicle):
         :param times: timesteps of prediction
         :return: positions, headings
         """
-        coordinates = self.lane.local_coordinates(self.position)
         route = self.route or [self.lane_index]
+        # The route may leave lanes unspecified: assume that the vehicle then stays on the closest one to its own
+        route = [(_from, _to, _id if _id is not None else
+                  min(self.lane_index[2], len(self.road.network.graph[_from][_to]) - 1)) for _from, _to, _id in route]
+        coordinates = self.lane.local_coordinates(self.position)
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 9bff5f08b11d31f13d6a7f86638f23c53d9e15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 23/56] fix: predict trajectories from the position along the
 route that is followed

---
 highway_env/vehicle/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index bf79619..ba3b1a0 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -195,7 +195,8 @@ class ControlledVehicle(Vehicle):
         # The route may leave lanes unspecified: assume that the vehicle then stays on the closest one to its own
         route = [(_from, _to, _id if _id is not None else
                   min(self.lane_index[2], len(self.road.network.graph[_from][_to]) - 1)) for _from, _to, _id in route]
-        coordinates = self.lane.local_coordinates(self.position)
+        # The first road of the route may already be the next one: locate the vehicle with respect to this road
+        coordinates = self.road.network.get_lane(route[0]).local_coordinates(self.position)
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 746249227bd4c3994d2e3ba58f53888465559e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 24/56] fix: regulate roads simulated slower than the
 regulation frequency

---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0


From 79dd0ba60a9369e25b870dfd7af244c9ea25eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 25/56] fix: count both front tires in the linearised yaw
 dynamics

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From d47a95c27041a368b8b92e2107497b70a27f994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 26/56] fix: express the perturbation matrix of an LPV in its
 coordinates

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..8f85204 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,6 +220,7 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
+        self.d = self.change_coordinates(self.d, offset=False)
         self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
-- 
2.43.0


From 29f937a9f3ee3697998e6572318bf2260d610e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 27/56] fix: keep the center of an LPV whose dynamics cannot be
 made Metzler

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 8f85204..f175665 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -213,6 +213,7 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
+                self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
         else:
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
-- 
2.43.0


From a66ee010adc7552de2799495845088546a339749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 28/56] fix: make the default control of an LPV usable

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index f175665..ecb5d40 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From 163a9dac10496df36f66e4d25704a3ccbe9f28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 29/56] fix: change coordinates of lists back, and without
 modifying vectors

---
 highway_env/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index ecb5d40..1bf48cb 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -260,7 +260,7 @@ class LPV(object):
             else:
                 return transformation_inv @ value @ transformation
         elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
+            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
         else:
             if back:
                 value = transformation @ value
@@ -269,7 +269,7 @@ class LPV(object):
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 45101d35dd30004a8dbc7fb84605992e1df3bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 30/56] fix: draw on a new viewer, even if the previous one was
 up to date

---
 highway_env/envs/common/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index efdfada..2bfc3dc 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -241,6 +241,7 @@ class AbstractEnv(gym.Env):
 
         if self.viewer is None:
             self.viewer = EnvViewer(self)
+            self.should_update_rendering = True  # nothing has been drawn by this viewer yet
 
         self.enable_auto_render = True
 
-- 
2.43.0


From 4a541d8d5f2357bedc38097e85c4ee6f6e20b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 31/56] fix: name the planned actions of any environment with
 discrete actions

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index f391703..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From b2813efbf97a39211311791e8c5520fb93dbfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 32/56] fix: do not scramble grayscale images that are not
 square

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index b645b7e..fb00648 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -83,7 +83,7 @@ class GrayscaleObservation(ObservationType):
 
     def _record_to_grayscale(self) -> np.ndarray:
         #TODO: center rendering on the observer vehicle
-        raw_rgb = self.env.render('rgb_array')
+        raw_rgb = np.moveaxis(self.env.render('rgb_array'), 0, 1)  # (H,W,C) to (W,H,C)
         return np.dot(raw_rgb[..., :3], self.config['weights'])
 
 
-- 
2.43.0


From 044fbe5d50514e89e7f34954aec5d4b85a2fad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 33/56] fix: do not change the configuration when the window is
 moved

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 2b9ecd4..0f58dc1 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,7 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
-- 
2.43.0


From 4bbbb4597d795d29d8ef291c8c713cb77caefa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 34/56] fix: let interval vehicles collect data when they were
 given none

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..7b93ee7 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From ff05371aa58fa56eb6cf13819c43ecac4bfd0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 35/56] fix: predict with the parameter box while no data was
 collected

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..96a87f2 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -14,10 +14,10 @@ class RegressionVehicle(IntervalVehicle):
     """Estimator for the parameter of a LinearVehicle."""
 
     def longitudinal_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)
+        return self.polytope_from_estimation(self.data.get("longitudinal"), self.theta_a_i, self.longitudinal_structure)
 
     def lateral_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)
+        return self.polytope_from_estimation(self.data.get("lateral"), self.theta_b_i, self.lateral_structure)
 
     def polytope_from_estimation(self, data: dict, parameter_box: np.ndarray, structure: Callable[[], Polytope])\
             -> Polytope:
-- 
2.43.0


From 886b0b362651b276460b17679fd1028fc2ddb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 36/56] fix: do not send the routes of an intersection to lanes
 that do not exist

---
 highway_env/vehicle/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index ba3b1a0..8642149 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -164,9 +164,10 @@ class ControlledVehicle(Vehicle):
                 break
         else:
             return [self.route]
-        next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
-                  for destination in next_destinations_from]
+        _from, _id = self.route[index][1:]
+        # Keep the same lane id, if the destination has that many lanes
+        routes = [self.route[0:index+1] + [(_from, destination, _id if _id is None else min(_id, len(lanes) - 1))]
+                  for destination, lanes in next_destinations.items()]
         return routes
 
     def set_route_at_intersection(self, _to: int) -> None:
-- 
2.43.0


From 5a580ffb3380dd9b3dd76a9322866c667bf1e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 37/56] fix: keep the last lane of a possible route

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 96a87f2..6c05793 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -81,7 +81,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0


From f9150f2cc1b9701c69b01fc30c5193d898bd0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 38/56] fix: compute the maximum speed behind a front vehicle

---
 highway_env/vehicle/behavior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 41687a0..dd74ceb 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -173,10 +173,10 @@ class IDMVehicle(ControlledVehicle):
         :return: the maximum allowed speed, and suggested acceleration
         """
         if not front_vehicle:
-            return self.target_speed
+            return self.target_speed, self.speed_control(self.target_speed)
         d0 = self.DISTANCE_WANTED
-        a0 = self.COMFORT_ACC_MIN
-        a1 = self.COMFORT_ACC_MIN
+        a0 = -self.COMFORT_ACC_MIN
+        a1 = -self.COMFORT_ACC_MIN
         tau = self.TIME_WANTED
         d = max(self.lane_distance_to(front_vehicle) - self.LENGTH / 2 - front_vehicle.LENGTH / 2 - d0, 0)
         v1_0 = front_vehicle.speed
@@ -184,7 +184,7 @@ class IDMVehicle(ControlledVehicle):
         v_max = -a0 * tau + np.sqrt(delta) / (2 * a1)
 
         # Speed control
-        self.target_speed = min(self.maximum_speed(front_vehicle), self.target_speed)
+        self.target_speed = min(v_max, self.target_speed)
         acceleration = self.speed_control(self.target_speed)
 
         return v_max, acceleration
-- 
2.43.0


From 02adf4ff486b46da82946ce057fef546d27dbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 39/56] fix: enclose the confidence ellipsoid in the confidence
 polytope

---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index e1d4294..cf44cb3 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -164,7 +164,7 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
 
     values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
+    radius_matrix = beta_n * pp @ np.diag(np.sqrt(1 / values))
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
     d_theta = np.array([radius_matrix @ h_k for h_k in h])
 
-- 
2.43.0


From f8804facd53787722d584425364ff59d32c75070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 40/56] fix: do not change the route of a vehicle when its
 possible routes are updated

---
 highway_env/vehicle/uncertainty/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 6c05793..2fc02b7 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -67,8 +67,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         for route in self.get_routes_at_intersection():  # Candidates
             # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            route = [(_from, _to, _id if _id is not None else 0) for _from, _to, _id in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From 2916fd6d31f170b9726ca149295240730b820b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 41/56] fix: look for vehicles and obstacles behind on the
 target lane when recovering from a stop

---
 highway_env/vehicle/behavior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index dd74ceb..fdc0be2 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -282,10 +282,10 @@ class IDMVehicle(ControlledVehicle):
         # Is the vehicle stopped on the wrong lane?
         if self.target_lane_index != self.lane_index and self.speed < stopped_speed:
             _, rear = self.road.neighbour_vehicles(self)
-            _, new_rear = self.road.neighbour_vehicles(self, self.road.network.get_lane(self.target_lane_index))
+            _, new_rear = self.road.neighbour_vehicles(self, self.target_lane_index)
             # Check for free room behind on both lanes
-            if (not rear or rear.lane_distance_to(self) > safe_distance) and \
-                    (not new_rear or new_rear.lane_distance_to(self) > safe_distance):
+            if (not rear or -self.lane_distance_to(rear) > safe_distance) and \
+                    (not new_rear or -self.lane_distance_to(new_rear) > safe_distance):
                 # Reverse
                 return -self.COMFORT_ACC_MAX / 2
         return acceleration
-- 
2.43.0


From 90b6ef73a1212e60c24185500d634b9df6cf689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 42/56] fix: bounds of uncertain vehicles contain every
 direction of heading intervals beyond half a turn

---
 highway_env/vehicle/uncertainty/prediction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 7b93ee7..e99258d 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -160,10 +160,11 @@ class IntervalVehicle(LinearVehicle):
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        contains = lambda angle: (angle - psi_i[0]) % (2*np.pi) <= psi_i[1] - psi_i[0]  # up to a full turn
+        cos_i = [-1 if contains(np.pi) else min(map(np.cos, psi_i)),
+                 1 if contains(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if contains(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if contains(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From 7f29209e36fceec56043d4e25e029c26a517327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 43/56] fix: bounds of headings of uncertain vehicles are
 absolute, and lane changes express them in the new lane

---
 highway_env/vehicle/uncertainty/prediction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index e99258d..746e1f9 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -193,10 +193,9 @@ class IntervalVehicle(LinearVehicle):
         if self.target_lane_index != self.previous_target_lane_index:
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
-            previous_target_lane = self.road.network.get_lane(self.previous_target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading + \
-                    target_lane.heading_at(longi_i.mean()) - previous_target_lane.heading_at(longi_i.mean())
+            psi_i = utils.wrap_to_pi(self.interval.heading.mean() - target_lane.heading_at(longi_i.mean())) + \
+                    self.interval.heading - self.interval.heading.mean()
             x_i_local_unrotated = np.transpose([lat_i, psi_i])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
@@ -224,7 +223,7 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
-- 
2.43.0


From c21be1109b628dae9b878da9cb5debafb8efa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 44/56] fix: collect the data of a driver once it has chosen
 its lane, so that outputs are its actual controls

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index fdc0be2..0e8a615 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -321,9 +321,9 @@ class LinearVehicle(IDMVehicle):
         self.collecting_data = True
 
     def act(self, action: Union[dict, str] = None):
+        super().act(action)
         if self.collecting_data:
             self.collect_data()
-        super().act(action)
 
     def randomize_behavior(self):
         ua = self.road.np_random.uniform(size=np.shape(self.ACCELERATION_PARAMETERS))
-- 
2.43.0


From 270348284efcadb1cebcca1af8b7b41a7d2246fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:40 +0000
Subject: [PATCH 45/56] fix: closing an environment no longer stops pygame
 while others are rendering

---
 highway_env/envs/common/graphics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 0f58dc1..1d93e1f 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -1,4 +1,5 @@
 import os
+import weakref
 from typing import TYPE_CHECKING, Callable, List
 import numpy as np
 import pygame
@@ -18,10 +19,13 @@ class EnvViewer(object):
     """A viewer to render a highway driving environment."""
 
     SAVE_IMAGES = False
+    OPENED = weakref.WeakSet()
+    """The viewers that still need pygame."""
 
     def __init__(self, env: 'AbstractEnv') -> None:
         self.env = env
         self.offscreen = env.config["offscreen_rendering"]
+        self.OPENED.add(self)
 
         pygame.init()
         pygame.display.set_caption("Highway-env")
@@ -147,8 +151,10 @@ class EnvViewer(object):
             return np.array([0, 0])
 
     def close(self) -> None:
-        """Close the pygame window."""
-        pygame.quit()
+        """Close the pygame window, unless other viewers are using it."""
+        self.OPENED.discard(self)
+        if not self.OPENED:
+            pygame.quit()
 
 
 class EventHandler(object):
-- 
2.43.0


From 3a0d168b54540bc85574b09c297461799f8b76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:40 +0000
Subject: [PATCH 46/56] fix: images of an environment in a window are its own,
 whatever was drawn in the window since

---
 highway_env/envs/common/graphics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 1d93e1f..5b653ab 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -139,7 +139,9 @@ class EnvViewer(object):
 
     def get_image(self) -> np.ndarray:
         """the rendered image as a rbg array."""
-        surface = self.screen if self.env.config["render_agent"] and not self.offscreen else self.sim_surface
+        # The screen, which other environments may have drawn on since, is only needed to show the agent as well
+        with_agent = self.agent_display and self.env.config["render_agent"] and not self.offscreen
+        surface = self.screen if with_agent else self.sim_surface
         data = pygame.surfarray.array3d(surface)
         return np.moveaxis(data, 0, 1)
 
-- 
2.43.0


From c64cf5a566a0fbe0e51e5d8801c3d2067129b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:16 +0000
Subject: [PATCH 47/56] fix: take the image before handling window events,
 which may close the viewer

---
 highway_env/envs/common/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 2bfc3dc..fdc4b04 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -249,10 +249,11 @@ class AbstractEnv(gym.Env):
         if self.should_update_rendering:
             self.viewer.display()
 
+        # The viewer may be closed by an event
+        image = self.viewer.get_image() if mode == 'rgb_array' else None
         if not self.viewer.offscreen:
             self.viewer.handle_events()
         if mode == 'rgb_array':
-            image = self.viewer.get_image()
             return image
         self.should_update_rendering = False
 
-- 
2.43.0


From ccb09a76c6f6821d5f5d966faac0b49c0fcb51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:16 +0000
Subject: [PATCH 48/56] fix: express the nominal state of an LPV predictor in
 the coordinates of its frame

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1bf48cb..fb8557f 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -223,6 +223,7 @@ class LPV(object):
         self.b = self.change_coordinates(self.b, offset=False)
         self.d = self.change_coordinates(self.d, offset=False)
         self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.x_t = self.change_coordinates(self.x0)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From ed437968d478d8a25773466fa157988d14a9d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:16 +0000
Subject: [PATCH 49/56] fix: rotate the point into the frame of the ellipse in
 point_in_ellipse

---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index cf44cb3..2be7209 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -81,7 +81,7 @@ def point_in_ellipse(point: Vector, center: Vector, angle: float, length: float,
     :return: is the point inside the ellipse
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.matrix([[c, -s], [s, c]])
+    r = np.matrix([[c, s], [-s, c]])  # world frame -> ellipse frame
     ru = r.dot(point - center)
     return np.sum(np.square(ru / np.array([length, width]))) < 1
 
-- 
2.43.0


From fba0691c8faab19d85ac22092e9fd7065ff016b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:59 +0000
Subject: [PATCH 50/56] fix: define the reward of the two-way task on the
 opposite road, which follows its end

---
 highway_env/envs/two_way_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..ee5f5b2 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -47,7 +47,7 @@ class TwoWayEnv(AbstractEnv):
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
         reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From 15c01623911413c43456ee6df7d94626b6800988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 51/56] fix: draw past positions of slow simulations

The step between the positions shown was 0 when the simulation runs at
less than the display frequency, which islice rejects.
---
 highway_env/vehicle/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/graphics.py b/highway_env/vehicle/graphics.py
index 17ced80..82ed57b 100644
--- a/highway_env/vehicle/graphics.py
+++ b/highway_env/vehicle/graphics.py
@@ -136,7 +136,7 @@ class VehicleGraphics(object):
         for v in itertools.islice(vehicle.history,
                                   None,
                                   int(simulation * duration),
-                                  int(simulation / frequency)):
+                                  max(int(simulation / frequency), 1)):
             cls.display(v, surface, transparent=True, offscreen=offscreen)
 
     @classmethod
-- 
2.43.0


From f74f59589bd9cbb1de6a025a1d914236018499eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 52/56] fix: predict trajectories saved more often than
 simulated

The number of frames between two saved states was 0, hence a
ZeroDivisionError, when the timestep of the trajectory is shorter than a
frame.
---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 8642149..5c341b2 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -299,6 +299,6 @@ class MDPVehicle(ControlledVehicle):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % max(int(trajectory_timestep / dt), 1)) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From ad52b1ab17ae0ff59efd2be496d25b4e3ea1fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 53/56] fix: observe times to collision of vehicles with a
 single speed

Its layer is both the first and the last one, but it was repeated once only,
so that the observation had two layers instead of three.
---
 highway_env/envs/common/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index fb00648..e6a2a34 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -110,7 +110,8 @@ class TimeToCollisionObservation(ObservationType):
         lf = grid.shape[1] + self.observer_vehicle.lane_index[2] + obs_lanes // 2
         clamped_grid = padded_grid[:, l0:lf+1, :]
         repeats = np.ones(clamped_grid.shape[0])
-        repeats[np.array([0, -1])] += clamped_grid.shape[0]
+        repeats[0] += clamped_grid.shape[0]
+        repeats[-1] += clamped_grid.shape[0]
         padded_grid = np.repeat(clamped_grid, repeats.astype(int), axis=0)
         obs_speeds = 3
         v0 = grid.shape[0] + self.observer_vehicle.speed_index - obs_speeds // 2
-- 
2.43.0


From 36b36a8a325582e84e91e46e4079289e5a580020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 54/56] fix: reward merging and overtaking at a single speed

The reward divided by the number of speeds minus one, as that of the
roundabout did.
---
 highway_env/envs/merge_env.py   | 2 +-
 highway_env/envs/two_way_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/merge_env.py b/highway_env/envs/merge_env.py
index ec637ac..41b626a 100644
--- a/highway_env/envs/merge_env.py
+++ b/highway_env/envs/merge_env.py
@@ -41,7 +41,7 @@ class MergeEnv(AbstractEnv):
                          4: 0}
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.RIGHT_LANE_REWARD * self.vehicle.lane_index[2] / 1 \
-                 + self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1)
+                 + self.HIGH_SPEED_REWARD * self.vehicle.speed_index / max(self.vehicle.SPEED_COUNT - 1, 1)
 
         # Altruistic penalty
         for vehicle in self.road.vehicles:
diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index ee5f5b2..22f9d6d 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -46,7 +46,7 @@ class TwoWayEnv(AbstractEnv):
         """
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
-        reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
+        reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
                  + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / max(len(neighbours) - 1, 1)
         return reward
 
-- 
2.43.0


From 168f71ffa310bb23c1d929d7998b2f14be59304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:45 +0000
Subject: [PATCH 55/56] fix: draw objects of any proportions at their place

The rectangle of an object longer than it is wide was drawn along the upper
side of its surface, off the position of the object.
---
 highway_env/road/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..3a0cbc8 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -295,7 +295,7 @@ class RoadObjectGraphics:
         """
         o = object_
         s = pygame.Surface((surface.pix(o.LENGTH), surface.pix(o.LENGTH)), pygame.SRCALPHA)  # per-pixel alpha
-        rect = (0, surface.pix(o.WIDTH) / 2 - surface.pix(o.WIDTH) / 2, surface.pix(o.LENGTH), surface.pix(o.WIDTH))
+        rect = (0, surface.pix(o.LENGTH / 2 - o.WIDTH / 2), surface.pix(o.LENGTH), surface.pix(o.WIDTH))
         pygame.draw.rect(s, cls.get_color(o, transparent), rect, 0)
         pygame.draw.rect(s, cls.BLACK, rect, 1)
         if not offscreen:  # convert_alpha throws errors in offscreen mode TODO() Explain why
-- 
2.43.0


From cb40705ab189ef34ee93bf1603dd05dcfba37a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:45 +0000
Subject: [PATCH 56/56] fix: driven vehicles can be created from plain ones,
 such as the parked vehicles of the summon task

---
 highway_env/vehicle/behavior.py   | 2 ++
 highway_env/vehicle/controller.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 0e8a615..6e4e4eb 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -70,6 +70,8 @@ class IDMVehicle(ControlledVehicle):
         :param vehicle: a vehicle
         :return: a new vehicle at the same dynamical state
         """
+        if not isinstance(vehicle, ControlledVehicle):  # no target dynamics to copy
+            return cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed)
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                 target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
                 route=vehicle.route, timer=getattr(vehicle, 'timer', None))
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 5c341b2..6de3633 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -51,6 +51,8 @@ class ControlledVehicle(Vehicle):
         :param vehicle: a vehicle
         :return: a new vehicle at the same dynamical state
         """
+        if not isinstance(vehicle, ControlledVehicle):  # no target dynamics to copy
+            return cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed)
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                 target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
                 route=vehicle.route)
-- 
2.43.0

