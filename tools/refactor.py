"""Behaviour-preserving rewrites of the package: `python3 refactor.py TREE` applies them to a scratch copy of the repository.

tools/refactor.sh makes the copy and runs all checks on it; they all have to stay quiet."""
import re
import sys
R = sys.argv[1] + "/highway_env/"
def sub(f,a,b):
    s=open(R+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open(R+f,"w").write(s.replace(a,b))
# road.py
sub("road/road.py","""        indexes, distances = [], []
        for _from, to_dict in self.graph.items():
            for _to, lanes in to_dict.items():
                for _id, l in enumerate(lanes):
                    distances.append(l.distance_with_heading(position, heading))
                    indexes.append((_from, _to, _id))
        return indexes[int(np.argmin(distances))]
""","""        best_index, best_distance = None, np.inf
        for index, lane in self._indexed_lanes():
            distance = lane.distance_with_heading(position, heading)
            if distance < best_distance:
                best_index, best_distance = index, distance
        return best_index

    def _indexed_lanes(self):
        for _from, to_dict in self.graph.items():
            for _to, lanes in to_dict.items():
                for _id, lane in enumerate(lanes):
                    yield (_from, _to, _id), lane
""")
sub("road/road.py","""        if _from not in self.graph:
            self.graph[_from] = {}
        if _to not in self.graph[_from]:
            self.graph[_from][_to] = []
        self.graph[_from][_to].append(lane)
""","""        self.graph.setdefault(_from, {}).setdefault(_to, []).append(lane)
""")
sub("road/road.py","""            lanes = range(len(self.graph[_to][next_to]))
            next_id = min(lanes,
                          key=lambda l: self.get_lane((_to, next_to, l)).distance(position))
""","""            distances = [lane.distance(position) for lane in self.graph[_to][next_to]]
            next_id = distances.index(min(distances))
""")
sub("road/road.py","""            (node, path) = queue.pop(0)
            if node not in self.graph:
                yield []
            for _next in self.graph[node].keys():
                if _next in path:
                    continue
                if _next == goal:
""","""            node, path = queue[0]
            queue = queue[1:]
            if node not in self.graph:
                yield []
            successors = [n for n in self.graph[node] if n not in path]
            for _next in successors:
                if goal == _next:
""")
sub("road/road.py","""        vehicles = [v for v in self.vehicles
                    if np.linalg.norm(v.position - vehicle.position) < distance
                    and v is not vehicle
                    and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]

        vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
        if count is not None:
            vehicles = vehicles[:count]
        return vehicles
""","""        candidates = []
        for other in self.vehicles:
            if other is vehicle:
                continue
            gap = vehicle.lane_distance_to(other)
            if np.hypot(*(other.position - vehicle.position)) >= distance:
                continue
            if see_behind or gap > -2 * vehicle.LENGTH:
                candidates.append((abs(gap), len(candidates), other))
        candidates.sort(key=lambda c: c[:2])
        result = [other for _, _, other in candidates]
        return result if count is None else result[:count]
""")
sub("road/road.py","""            for other in self.vehicles:
                vehicle.check_collision(other)
            for other in self.objects:
                vehicle.check_collision(other)
""","""            for other in self.vehicles + self.objects:
                vehicle.check_collision(other)
""")
sub("road/road.py","""        s_front = s_rear = None
        v_front = v_rear = None
        for v in self.vehicles + self.objects:
            if v is not vehicle and not isinstance(v, Landmark):  # self.network.is_connected_road(v.lane_index,
                # lane_index, same_lane=True):
                s_v, lat_v = lane.local_coordinates(v.position)
                if not lane.on_lane(v.position, s_v, lat_v, margin=1):
                    continue
                if s <= s_v and (s_front is None or s_v <= s_front):
                    s_front = s_v
                    v_front = v
                if s_v < s and (s_rear is None or s_v > s_rear):
                    s_rear = s_v
                    v_rear = v
        return v_front, v_rear
""","""        front, rear = (np.inf, None), (-np.inf, None)
        others = [v for v in [*self.vehicles, *self.objects] if v is not vehicle and not isinstance(v, Landmark)]
        for other in others:
            if not lane.on_lane(other.position, margin=1):
                continue
            s_v = lane.local_coordinates(other.position)[0]
            if s_v >= s:
                if s_v <= front[0]:
                    front = (s_v, other)
            elif s_v > rear[0]:
                rear = (s_v, other)
        return front[1], rear[1]
""")
sub("road/road.py","""        while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:
            longitudinal -= self.get_lane(route[0]).length
            route = route[1:]
        return self.get_lane(route[0]).position(longitudinal, lateral), self.get_lane(route[0]).heading_at(longitudinal)
""","""        for step, index in enumerate(route):
            lane = self.get_lane(index)
            if step == len(route) - 1 or longitudinal <= lane.length:
                break
            longitudinal = longitudinal - lane.length
        return lane.position(longitudinal, lateral), lane.heading_at(longitudinal)
""")
# regulation
sub("road/regulation.py","""        for i in range(len(self.vehicles) - 1):
            for j in range(i+1, len(self.vehicles)):
                if self.is_conflict_possible(self.vehicles[i], self.vehicles[j]):
                    yielding_vehicle = self.respect_priorities(self.vehicles[i], self.vehicles[j])
                    if yielding_vehicle is not None and \\
                            isinstance(yielding_vehicle, ControlledVehicle) and \\
                            not isinstance(yielding_vehicle, MDPVehicle):
                        yielding_vehicle.color = self.YIELDING_COLOR
                        yielding_vehicle.target_speed = 0
                        yielding_vehicle.is_yielding = True
                        yielding_vehicle.yield_timer = 0
""","""        import itertools
        for v1, v2 in itertools.combinations(self.vehicles, 2):
            if not self.is_conflict_possible(v1, v2):
                continue
            self._stop(self.respect_priorities(v1, v2))

    def _stop(self, vehicle) -> None:
        if not isinstance(vehicle, ControlledVehicle) or isinstance(vehicle, MDPVehicle):
            return
        vehicle.is_yielding, vehicle.yield_timer = True, 0
        vehicle.target_speed = 0
        vehicle.color = self.YIELDING_COLOR
""")
sub("road/regulation.py","""        if v1.lane.priority > v2.lane.priority:
            return v2
        elif v1.lane.priority < v2.lane.priority:
            return v1
        else:  # The vehicle behind should yield
            return v1 if v1.front_distance_to(v2) > v2.front_distance_to(v1) else v2
""","""        difference = v1.lane.priority - v2.lane.priority
        if difference == 0:  # The vehicle behind should yield
            first_is_behind = v2.front_distance_to(v1) < v1.front_distance_to(v2)
            return v1 if first_is_behind else v2
        return v2 if difference > 0 else v1
""")
sub("road/regulation.py","""        for position_1, heading_1, position_2, heading_2 in zip(positions_1, headings_1, positions_2, headings_2):
            # Fast spherical pre-check
            if np.linalg.norm(position_2 - position_1) > v1.LENGTH:
                continue

            # Accurate rectangular check
            if utils.rotated_rectangles_intersect((position_1, 1.5*v1.LENGTH, 0.9*v1.WIDTH, heading_1),
                                                  (position_2, 1.5*v2.LENGTH, 0.9*v2.WIDTH, heading_2)):
                return True""","""        def footprint(v, p, h):
            return p, 1.5*v.LENGTH, 0.9*v.WIDTH, h
        return any(np.linalg.norm(positions_2[k] - positions_1[k]) <= v1.LENGTH
                   and utils.rotated_rectangles_intersect(footprint(v1, positions_1[k], headings_1[k]),
                                                          footprint(v2, positions_2[k], headings_2[k]))
                   for k in range(len(times)))""")
# kinematics
sub("vehicle/kinematics.py","""        v = self.speed * np.array([np.cos(self.heading + beta),
                                   np.sin(self.heading + beta)])
        self.position += v * dt
        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt
        self.speed += self.action['acceleration'] * dt
        self.on_state_update()
""","""        course = self.heading + beta
        rate = 2 * self.speed * np.sin(beta) / self.LENGTH
        self.position = self.position + dt * self.speed * np.array([np.cos(course), np.sin(course)])
        self.speed += self.action['acceleration'] * dt
        self.heading += rate * dt
        self.on_state_update()
""")
sub("vehicle/kinematics.py","""        if self.crashed:
            self.action['steering'] = 0
            self.action['acceleration'] = -1.0*self.speed
        self.action['steering'] = float(self.action['steering'])
        self.action['acceleration'] = float(self.action['acceleration'])
        if self.speed > self.MAX_SPEED:
            self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
        elif self.speed < -self.MAX_SPEED:
            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
""","""        if self.crashed:
            self.action['acceleration'], self.action['steering'] = -self.speed, 0
        steering, acceleration = float(self.action['steering']), float(self.action['acceleration'])
        if abs(self.speed) > self.MAX_SPEED:
            excess = np.sign(self.speed) * self.MAX_SPEED - self.speed
            acceleration = min(acceleration, excess) if self.speed > 0 else max(acceleration, excess)
        self.action['steering'], self.action['acceleration'] = steering, float(acceleration)
""")
sub("vehicle/kinematics.py","""        if isinstance(other, Vehicle):
            if not self.COLLISIONS_ENABLED or not other.COLLISIONS_ENABLED:
                return

            if self._is_colliding(other):
                self.speed = other.speed = min([self.speed, other.speed], key=abs)
                self.crashed = other.crashed = True
        elif isinstance(other, Obstacle):
            if not self.COLLISIONS_ENABLED:
                return

            if self._is_colliding(other):
                self.speed = min([self.speed, 0], key=abs)
                self.crashed = other.hit = True
        elif isinstance(other, Landmark):
            if self._is_colliding(other):
                other.hit = True

    def _is_colliding(self, other):
        # Fast spherical pre-check
        if np.linalg.norm(other.position - self.position) > self.LENGTH:
            return False
        # Accurate rectangular check
        return utils.rotated_rectangles_intersect((self.position, 0.9*self.LENGTH, 0.9*self.WIDTH, self.heading),
                                                  (other.position, 0.9*other.LENGTH, 0.9*other.WIDTH, other.heading))
""","""        if not self._overlaps(other):
            return

        if isinstance(other, Landmark):
            other.hit = True
        elif isinstance(other, Obstacle):
            if self.COLLISIONS_ENABLED:
                other.hit = True
                self.crashed = True
                self.speed = 0
        elif isinstance(other, Vehicle):
            if self.COLLISIONS_ENABLED and other.COLLISIONS_ENABLED:
                slowest = self.speed if abs(self.speed) <= abs(other.speed) else other.speed
                for v in (self, other):
                    v.speed = slowest
                    v.crashed = True

    def _shape(self, body):
        return body.position, 0.9*body.LENGTH, 0.9*body.WIDTH, body.heading

    def _overlaps(self, other):
        near = np.linalg.norm(other.position - self.position) <= self.LENGTH
        return near and utils.rotated_rectangles_intersect(self._shape(self), self._shape(other))
""")
sub("vehicle/kinematics.py","""        lane = road.network.get_lane((_from, _to, _id))
        offset = spacing * default_spacing * np.exp(-5 / 30 * len(road.network.graph[_from][_to]))
        x0 = np.max([lane.local_coordinates(v.position)[0] for v in road.vehicles]) \\
            if len(road.vehicles) else 3*offset
        x0 += offset * road.np_random.uniform(0.9, 1.1)
""","""        siblings = road.network.graph[_from][_to]
        lane = siblings[_id]
        offset = default_spacing * spacing * np.exp(-len(siblings) / 6)
        x0 = 3*offset
        if road.vehicles:
            x0 = max(lane.local_coordinates(v.position)[0] for v in road.vehicles)
        x0 = x0 + offset * road.np_random.uniform(0.9, 1.1)
""")
sub("vehicle/kinematics.py","""            origin_dict = origin_vehicle.to_dict()
            for key in ['x', 'y', 'vx', 'vy']:
                d[key] -= origin_dict[key]
        return d

    def __str__""","""            for i, axis in enumerate('xy'):
                d[axis] = self.position[i] - origin_vehicle.position[i]
                d['v' + axis] = self.velocity[i] - origin_vehicle.velocity[i]
        return d

    def __str__""")
# controller
sub("vehicle/controller.py","""        elif action == "LANE_RIGHT":
            _from, _to, _id = self.target_lane_index
            target_lane_index = _from, _to, np.clip(_id + 1, 0, len(self.road.network.graph[_from][_to]) - 1)
            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position):
                self.target_lane_index = target_lane_index
        elif action == "LANE_LEFT":
            _from, _to, _id = self.target_lane_index
            target_lane_index = _from, _to, np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)
            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position):
                self.target_lane_index = target_lane_index

        action = {"steering": self.steering_control(self.target_lane_index),
                  "acceleration": self.speed_control(self.target_speed)}
        action['steering'] = np.clip(action['steering'], -self.MAX_STEERING_ANGLE, self.MAX_STEERING_ANGLE)
        super().act(action)
""","""        elif action in ("LANE_LEFT", "LANE_RIGHT"):
            self._move_target_lane(1 if action == "LANE_RIGHT" else -1)

        acceleration = self.speed_control(self.target_speed)
        steering = self.steering_control(self.target_lane_index)
        super().act({"acceleration": acceleration,
                     "steering": min(max(steering, -self.MAX_STEERING_ANGLE), self.MAX_STEERING_ANGLE)})

    def _move_target_lane(self, shift: int) -> None:
        _from, _to, _id = self.target_lane_index
        last = len(self.road.network.all_side_lanes(self.target_lane_index)) - 1
        candidate = (_from, _to, max(0, min(_id + shift, last)))
        if self.road.network.get_lane(candidate).is_reachable_from(self.position):
            self.target_lane_index = candidate
""")
sub("vehicle/controller.py","""        lane_coords = target_lane.local_coordinates(self.position)
        lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU
        lane_future_heading = target_lane.heading_at(lane_next_coords)
""","""        s, lateral = target_lane.local_coordinates(self.position)
        lane_coords = (s, lateral)
        lane_future_heading = target_lane.heading_at(self.speed * self.PURSUIT_TAU + s)
""")
sub("vehicle/controller.py","""        if action == "FASTER":
            self.speed_index = self.speed_to_index(self.speed) + 1
        elif action == "SLOWER":
            self.speed_index = self.speed_to_index(self.speed) - 1
        else:
            super().act(action)
            return
        self.speed_index = int(np.clip(self.speed_index, 0, self.SPEED_COUNT - 1))
        self.target_speed = self.index_to_speed(self.speed_index)
        super().act()
""","""        change = {"FASTER": 1, "SLOWER": -1}.get(action, None) if isinstance(action, str) else None
        if change is None:
            return super().act(action)
        index = self.speed_to_index(self.speed) + change
        self.speed_index = max(0, min(index, self.SPEED_COUNT - 1))
        self.target_speed = self.index_to_speed(self.speed_index)
        super().act(None)
""")
sub("vehicle/controller.py","""        return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                     for t in times]))
""","""        positions, headings = [], []
        for t in times:
            p, h = self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
            positions.append(p)
            headings.append(h)
        return tuple(positions), tuple(headings)
""")
# behavior
sub("vehicle/behavior.py","""        d0 = self.DISTANCE_WANTED
        tau = self.TIME_WANTED
        ab = -self.COMFORT_ACC_MAX * self.COMFORT_ACC_MIN
        dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction) if projected \\
            else ego_vehicle.speed - front_vehicle.speed
        d_star = d0 + ego_vehicle.speed * tau + ego_vehicle.speed * dv / (2 * np.sqrt(ab))
        return d_star
""","""        speed = ego_vehicle.speed
        if projected:
            dv = speed - np.dot(front_vehicle.velocity, ego_vehicle.direction)
        else:
            dv = speed - front_vehicle.speed
        return self.DISTANCE_WANTED + speed * (self.TIME_WANTED
                                               + dv / (2 * np.sqrt(-self.COMFORT_ACC_MAX * self.COMFORT_ACC_MIN)))
""")
sub("vehicle/behavior.py","""        acceleration = self.COMFORT_ACC_MAX * (
                1 - np.power(max(ego_vehicle.speed, 0) / ego_target_speed, self.DELTA))

        if front_vehicle:
            d = ego_vehicle.lane_distance_to(front_vehicle)
            acceleration -= self.COMFORT_ACC_MAX * \\
                np.power(self.desired_gap(ego_vehicle, front_vehicle) / utils.not_zero(d), 2)
        return acceleration
""","""        interaction = 0
        if front_vehicle:
            gap = utils.not_zero(ego_vehicle.lane_distance_to(front_vehicle))
            interaction = (self.desired_gap(ego_vehicle, front_vehicle) / gap) ** 2
        free = 1 - (max(ego_vehicle.speed, 0) / ego_target_speed) ** self.DELTA
        return self.COMFORT_ACC_MAX * (free - interaction)
""")
sub("vehicle/behavior.py","""            if self.lane_index[:2] == self.target_lane_index[:2]:
                for v in self.road.vehicles:
                    if v is not self \\
                            and v.lane_index != self.target_lane_index \\
                            and isinstance(v, ControlledVehicle) \\
                            and v.target_lane_index == self.target_lane_index:
                        d = self.lane_distance_to(v)
                        d_star = self.desired_gap(self, v)
                        if 0 < d < d_star:
                            self.target_lane_index = self.lane_index
                            break
            return
""","""            if self.lane_index[:2] == self.target_lane_index[:2]:
                rivals = [v for v in self.road.vehicles if isinstance(v, ControlledVehicle) and v is not self
                          and v.target_lane_index == self.target_lane_index
                          and v.lane_index != self.target_lane_index]
                if any(0 < self.lane_distance_to(v) < self.desired_gap(self, v) for v in rivals):
                    self.target_lane_index = self.lane_index
            return
""")
sub("vehicle/behavior.py","""            self_a = self.acceleration(ego_vehicle=self, front_vehicle=old_preceding)
            old_following_a = self.acceleration(ego_vehicle=old_following, front_vehicle=self)
            old_following_pred_a = self.acceleration(ego_vehicle=old_following, front_vehicle=old_preceding)
            jerk = self_pred_a - self_a + self.POLITENESS * (new_following_pred_a - new_following_a
                                                             + old_following_pred_a - old_following_a)
            if jerk < self.LANE_CHANGE_MIN_ACC_GAIN:
                return False
""","""            own_gain = self_pred_a - self.acceleration(ego_vehicle=self, front_vehicle=old_preceding)
            new_gain = new_following_pred_a - new_following_a
            old_gain = self.acceleration(ego_vehicle=old_following, front_vehicle=old_preceding) \\
                - self.acceleration(ego_vehicle=old_following, front_vehicle=self)
            if own_gain + self.POLITENESS * (new_gain + old_gain) < self.LANE_CHANGE_MIN_ACC_GAIN:
                return False
""")
sub("vehicle/behavior.py","""        front_vehicle, rear_vehicle = self.road.neighbour_vehicles(self)
        features = self.acceleration_features(self, front_vehicle, rear_vehicle)
        output = np.dot(self.ACCELERATION_PARAMETERS, features)
        if "longitudinal" not in data:
            data["longitudinal"] = {"features": [], "outputs": []}
        data["longitudinal"]["features"].append(features)
        data["longitudinal"]["outputs"].append(output)

        if output_lane is None:
            output_lane = lane_index
        features = self.steering_features(lane_index)
        out_features = self.steering_features(output_lane)
        output = np.dot(self.STEERING_PARAMETERS, out_features)
        if "lateral" not in data:
            data["lateral"] = {"features": [], "outputs": []}
        data["lateral"]["features"].append(features)
        data["lateral"]["outputs"].append(output)
""","""        def record(kind, features, output):
            entry = data.setdefault(kind, {"features": [], "outputs": []})
            entry["features"].append(features)
            entry["outputs"].append(output)

        longitudinal = self.acceleration_features(self, *self.road.neighbour_vehicles(self))
        record("longitudinal", longitudinal, np.dot(self.ACCELERATION_PARAMETERS, longitudinal))
        followed = lane_index if output_lane is None else output_lane
        record("lateral", self.steering_features(lane_index),
               np.dot(self.STEERING_PARAMETERS, self.steering_features(followed)))
""")
# abstract
sub("envs/common/abstract.py","""        for l_index in self.road.network.side_lanes(self.vehicle.lane_index):
            if l_index[2] < self.vehicle.lane_index[2] \\
                    and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \\
                    and self.action_type.lateral:
                actions.append(self.action_type.actions_indexes['LANE_LEFT'])
            if l_index[2] > self.vehicle.lane_index[2] \\
                    and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \\
                    and self.action_type.lateral:
                actions.append(self.action_type.actions_indexes['LANE_RIGHT'])
        if self.vehicle.speed_index < self.vehicle.SPEED_COUNT - 1 and self.action_type.longitudinal:
            actions.append(self.action_type.actions_indexes['FASTER'])
        if self.vehicle.speed_index > 0 and self.action_type.longitudinal:
            actions.append(self.action_type.actions_indexes['SLOWER'])
        return actions
""","""        labels = []
        vehicle, network = self.vehicle, self.road.network
        if self.action_type.longitudinal:
            if vehicle.speed_index > 0:
                labels.append('SLOWER')
            if vehicle.speed_index < vehicle.SPEED_COUNT - 1:
                labels.append('FASTER')
        if self.action_type.lateral:
            for side in network.side_lanes(vehicle.lane_index):
                if network.get_lane(side).is_reachable_from(vehicle.position):
                    labels.append('LANE_LEFT' if side[2] < vehicle.lane_index[2] else 'LANE_RIGHT')
        return actions + [self.action_type.actions_indexes[label] for label in labels]
""")
sub("envs/common/abstract.py","""        for _ in range(int(self.config["simulation_frequency"] // self.config["policy_frequency"])):
            # Forward action to the vehicle
            if action is not None \\
                    and not self.config["manual_control"] \\
                    and self.time % int(self.config["simulation_frequency"] // self.config["policy_frequency"]) == 0:
                self.action_type.act(action)

            self.road.act()
            self.road.step(1 / self.config["simulation_frequency"])
            self.time += 1
            self.should_update_rendering = True
""","""        frames = int(self.config["simulation_frequency"] // self.config["policy_frequency"])
        dt = 1 / self.config["simulation_frequency"]
        forward = action is not None and not self.config["manual_control"]
        for _ in range(frames):
            # Forward action to the vehicle
            if forward and self.time % frames == 0:
                self.action_type.act(action)

            self.road.act()
            self.road.step(dt)
            self.should_update_rendering = True
            self.time += 1
""")
sub("envs/common/abstract.py","""        state_copy = copy.deepcopy(self)
        state_copy.road.vehicles = [state_copy.vehicle] + state_copy.road.close_vehicles_to(
            state_copy.vehicle, self.PERCEPTION_DISTANCE)

        return state_copy
""","""        simplified = copy.deepcopy(self)
        ego = simplified.vehicle
        close = simplified.road.close_vehicles_to(ego, self.PERCEPTION_DISTANCE)
        simplified.road.vehicles = [ego]
        simplified.road.vehicles.extend(close)
        return simplified
""")
sub("envs/common/abstract.py","""        obs = self.observation_type.observe()
        reward = self._reward(action)
        terminal = self._is_terminal()

        info = {
            "speed": self.vehicle.speed,
            "crashed": self.vehicle.crashed,
            "action": action,
        }
        try:
            info["cost"] = self._cost(action)
        except NotImplementedError:
            pass

        return obs, reward, terminal, info
""","""        obs = self.observation_type.observe()
        terminal = self._is_terminal()
        reward = self._reward(action)
        return obs, reward, terminal, self._make_info(action)

    def _make_info(self, action):
        info = {"action": action, "crashed": self.vehicle.crashed, "speed": self.vehicle.speed}
        try:
            info.update(cost=self._cost(action))
        except NotImplementedError:
            pass
        return info
""")
# action
sub("envs/common/action.py","""        if self.longitudinal and self.lateral:
            self.controlled_vehicle.act({
                "acceleration": utils.lmap(action[0], [-1, 1], self.acceleration_range),
                "steering": utils.lmap(action[1], [-1, 1], self.steering_range),
            })
        elif self.longitudinal:
            self.controlled_vehicle.act({
                "acceleration": utils.lmap(action[0], [-1, 1], self.acceleration_range),
                "steering": 0,
            })
        elif self.lateral:
            self.controlled_vehicle.act({
                "acceleration": 0,
                "steering": utils.lmap(action[0], [-1, 1], self.steering_range)
            })
        self.last_action = action
""","""        command = {"steering": 0, "acceleration": 0}
        if self.longitudinal:
            command["acceleration"] = utils.lmap(action[0], [-1, 1], self.acceleration_range)
        if self.lateral:
            command["steering"] = utils.lmap(action[-1], [-1, 1], self.steering_range)
        self.last_action = action
        self.controlled_vehicle.act(command)
""")
# observation
sub("envs/common/observation.py","""        padding = np.ones(np.shape(grid))
        padded_grid = np.concatenate([padding, grid, padding], axis=1)
        obs_lanes = 3
        l0 = grid.shape[1] + self.observer_vehicle.lane_index[2] - obs_lanes // 2
        lf = grid.shape[1] + self.observer_vehicle.lane_index[2] + obs_lanes // 2
        clamped_grid = padded_grid[:, l0:lf+1, :]
        repeats = np.ones(clamped_grid.shape[0])
        repeats[np.array([0, -1])] += clamped_grid.shape[0]
        padded_grid = np.repeat(clamped_grid, repeats.astype(int), axis=0)
        obs_speeds = 3
        v0 = grid.shape[0] + self.observer_vehicle.speed_index - obs_speeds // 2
        vf = grid.shape[0] + self.observer_vehicle.speed_index + obs_speeds // 2
        clamped_grid = padded_grid[v0:vf + 1, :, :]
        return clamped_grid
""","""        view = np.ones((3, 3, grid.shape[2]))
        for a, dv in enumerate((-1, 0, 1)):
            speed = min(max(self.observer_vehicle.speed_index + dv, 0), grid.shape[0] - 1)
            for b, dl in enumerate((-1, 0, 1)):
                lane = self.observer_vehicle.lane_index[2] + dl
                if 0 <= lane < grid.shape[1]:
                    view[a, b] = grid[speed, lane]
        return view
""")
sub("envs/common/observation.py","""            for layer, feature in enumerate(self.features):
                for _, vehicle in df.iterrows():
                    x, y = vehicle["x"], vehicle["y"]
                    # Recover unnormalized coordinates for cell index
                    if "x" in self.features_range:
                        x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                    if "y" in self.features_range:
                        y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                    if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                        self.grid[layer, cell[1], cell[0]] = vehicle[feature]
""","""            for _, vehicle in df.iterrows():
                coordinates = []
                for axis, name in enumerate("xy"):
                    c = vehicle[name]
                    if name in self.features_range:
                        low, high = self.features_range[name]
                        c = utils.lmap(c, [-1, 1], [low, high])
                    coordinates.append(int(np.floor((c - self.grid_size[axis, 0]) / self.grid_step[axis])))
                column, row = coordinates
                if 0 <= row < self.grid.shape[-2] and 0 <= column < self.grid.shape[-1]:
                    self.grid[:, row, column] = [vehicle[feature] for feature in self.features]
""")
sub("envs/common/observation.py","""        if df.shape[0] < self.vehicles_count:
            rows = np.zeros((self.vehicles_count - df.shape[0], len(self.features)))
            df = df.append(pd.DataFrame(data=rows, columns=self.features), ignore_index=True)
        # Reorder
        df = df[self.features]
        obs = df.values.copy()
""","""        obs = np.zeros((self.vehicles_count, len(self.features)))
        present = df[self.features].values
        obs[:len(present)] = present
""")
# finite mdp
sub("envs/common/finite_mdp.py","""                    for time in [int(time_to_collision / time_quantization),
                                 int(np.ceil(time_to_collision / time_quantization))]:
                        if 0 <= time < grid.shape[2]:
                            # TODO: check lane overflow (e.g. vehicle with higher lane id than current road capacity)
                            grid[speed_index, lane, time] = np.maximum(grid[speed_index, lane, time], cost)
""","""                    cells = time_to_collision / time_quantization
                    for time in {int(np.floor(cells)), int(np.ceil(cells))}:
                        if time >= grid.shape[2]:
                            continue
                        for l in lane:
                            grid[speed_index, l, time] = max(grid[speed_index, l, time], cost)
""")
# lane
sub("road/lane.py","""        if heading is None:
            return self.distance(position)
        s, r = self.local_coordinates(position)
        angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))
        return abs(r) + max(s - self.length, 0) + max(0 - s, 0) + heading_weight*angle
""","""        distance = self.distance(position)
        if heading is not None:
            s, _ = self.local_coordinates(position)
            distance += heading_weight * np.abs(wrap_to_pi(heading - self.heading_at(s)))
        return distance
""")
sub("road/lane.py","""        phi = self.direction * longitudinal / self.radius + self.start_phase
        psi = phi + np.pi/2 * self.direction
        return psi
""","""        return self.start_phase + self.direction * (longitudinal / self.radius + np.pi / 2)
""")
# utils
sub("utils.py","""    axes, half_extents = [], []
    for _, length, width, angle in (rect1, rect2):
        c, s = np.cos(angle), np.sin(angle)
        axes.append(np.array([[c, s], [-s, c]]))
        half_extents.append(np.array([length / 2, width / 2]))
    delta = np.asarray(rect2[0]) - np.asarray(rect1[0])
    for axis in np.concatenate(axes):
        reach = sum(h.dot(np.abs(a.dot(axis))) for a, h in zip(axes, half_extents))
        if np.abs(delta.dot(axis)) > reach:
            return False
    return True
""","""    def corners(rect):
        center, length, width, angle = rect
        u = np.array([np.cos(angle), np.sin(angle)])
        w = np.array([-u[1], u[0]])
        return np.array([np.asarray(center) + a * length / 2 * u + b * width / 2 * w for a in (-1, 1) for b in (-1, 1)])
    p1, p2 = corners(rect1), corners(rect2)
    for angle in (rect1[3], rect1[3] + np.pi / 2, rect2[3], rect2[3] + np.pi / 2):
        axis = np.array([np.cos(angle), np.sin(angle)])
        a, b = p1 @ axis, p2 @ axis
        if a.max() < b.min() or b.max() < a.min():
            return False
    return True
""")
sub("utils.py","""    return ((x + np.pi) % (2 * np.pi)) - np.pi
""","""    return np.mod(x + np.pi, 2 * np.pi) - np.pi
""")
# interval
sub("interval.py","""    p = lambda x: np.maximum(x, 0)
    n = lambda x: np.maximum(-x, 0)
    return np.array(
        [np.dot(p(a), b[0]) - np.dot(n(a), b[1]),
         np.dot(p(a), b[1]) - np.dot(n(a), b[0])])
""","""    a = np.asarray(a)
    positive, negative = np.maximum(a, 0), np.minimum(a, 0)
    low = np.dot(negative, b[1]) + np.dot(positive, b[0])
    high = np.dot(negative, b[0]) + np.dot(positive, b[1])
    return np.array([low, high])
""")
sub("interval.py","""    corners_dist = [np.dot(corner, direction) for corner in corners]
    return np.array([min(corners_dist), max(corners_dist)])
""","""    distances = sorted(np.dot(corner, direction) for corner in corners)
    return np.array([distances[0], distances[-1]])
""")
sub("interval.py","""        dx = self.a0 @ self.x_t + self.b @ self.u.squeeze(-1)
        self.x_t = self.x_t + dx * dt
""","""        control = self.b @ self.u.squeeze(-1)
        self.x_t = self.x_t + (self.a0 @ self.x_t) * dt + control * dt
""")
# dynamics
sub("vehicle/dynamics.py","""        derivative = self.derivative
        self.position += derivative[0:2, 0] * dt
        self.heading += self.yaw_rate * dt
        self.speed += self.action['acceleration'] * dt
        self.lateral_speed += derivative[4, 0] * dt
        self.yaw_rate += derivative[5, 0] * dt
""","""        dx, dy, yaw, acceleration, lateral, angular = self.derivative[:, 0]
        self.position = self.position + np.array([dx, dy]) * dt
        self.lateral_speed += lateral * dt
        self.heading += yaw * dt
        self.yaw_rate += angular * dt
        self.speed += acceleration * dt
""")
# envs
sub("envs/intersection_env.py","""        is_leaving = lambda vehicle: "il" in vehicle.lane_index[0] and "o" in vehicle.lane_index[1] \\
                                     and vehicle.lane.local_coordinates(vehicle.position)[0] \\
                                     >= vehicle.lane.length - 4 * vehicle.LENGTH
        self.road.vehicles = [vehicle for vehicle in self.road.vehicles if
                              vehicle in self.controlled_vehicles or not (is_leaving(vehicle) or vehicle.route is None)]

    def has_arrived(self, vehicle: Vehicle, exit_distance: float = 25) -> bool:
        return "il" in vehicle.lane_index[0] \\
               and "o" in vehicle.lane_index[1] \\
               and vehicle.lane.local_coordinates(vehicle.position)[0] >= exit_distance
""","""        kept = []
        for vehicle in self.road.vehicles:
            if vehicle not in self.controlled_vehicles:
                if vehicle.route is None:
                    continue
                if self._progress_on_exit(vehicle) >= vehicle.lane.length - 4 * vehicle.LENGTH:
                    continue
            kept.append(vehicle)
        self.road.vehicles = kept

    def has_arrived(self, vehicle: Vehicle, exit_distance: float = 25) -> bool:
        return bool(self._progress_on_exit(vehicle) >= exit_distance)

    @staticmethod
    def _progress_on_exit(vehicle: Vehicle) -> float:
        start, end, _ = vehicle.lane_index
        if start.startswith("il") and end.startswith("o"):
            return vehicle.lane.local_coordinates(vehicle.position)[0]
        return -np.inf
""")
sub("envs/intersection_env.py","""        for v in self.road.vehicles:
            if np.linalg.norm(v.position - vehicle.position) < 15:
                return
""","""        if any(np.linalg.norm(v.position - vehicle.position) < 15 for v in self.road.vehicles):
            return
""")
sub("envs/highway_env.py","""        reward = utils.lmap(reward,
                          [self.config["collision_reward"], self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],
                          [0, 1])
        reward = 0 if not self.vehicle.on_road else reward
        return reward
""","""        if not self.vehicle.on_road:
            return 0
        worst, best = self.config["collision_reward"], self.RIGHT_LANE_REWARD + self.HIGH_SPEED_REWARD
        return (reward - worst) / (best - worst)
""")
sub("envs/merge_env.py","""        for vehicle in self.road.vehicles:
            if vehicle.lane_index == ("b", "c", 2) and isinstance(vehicle, ControlledVehicle):
                reward += self.MERGING_SPEED_REWARD * \\
                          (vehicle.target_speed - vehicle.speed) / vehicle.target_speed
""","""        merging = [v for v in self.road.vehicles if isinstance(v, ControlledVehicle) and v.lane_index == ("b", "c", 2)]
        reward += self.MERGING_SPEED_REWARD * sum(1 - v.speed / v.target_speed for v in merging)
""")
sub("envs/two_way_env.py","""        reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \\
                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) \\
                 / max(len(neighbours) - 1, 1)
        return reward
""","""        last = len(neighbours) - 1
        left = (last - self.vehicle.target_lane_index[2]) / max(last, 1)
        fast = self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1)
        return self.LEFT_LANE_REWARD * left + self.HIGH_SPEED_REWARD * fast
""")
sub("envs/parking_env.py","""        return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)
""","""        gap = np.abs(np.asarray(desired_goal) - np.asarray(achieved_goal))
        return -(gap @ self.REWARD_WEIGHTS) ** p
""")
sub("vehicle/uncertainty/estimation.py","""        for route, _ in self.data:
            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                route.pop(0)

        # Reject inconsistent hypotheses
        for route, data in self.data.copy():
            if data:
                if not is_consistent_dataset(data["lateral"], parameter_box=LinearVehicle.STEERING_RANGE):
                    self.data.remove((route, data))
""","""        for route, _ in self.data:
            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                del route[0]

        # Reject inconsistent hypotheses
        self.data = [(route, data) for route, data in self.data
                     if not data or is_consistent_dataset(data["lateral"],
                                                          parameter_box=LinearVehicle.STEERING_RANGE)]
""")
sub("vehicle/uncertainty/prediction.py","""        self.interval.speed += dv_i * dt
        self.interval.heading += d_psi_i * dt
        self.interval.position[:, 0] += dx_i * dt
        self.interval.position[:, 1] += dy_i * dt

        # Add noise
        noise = 1
        self.interval.position[:, 0] += noise * dt * np.array([-1, 1])
        self.interval.position[:, 1] += noise * dt * np.array([-1, 1])
        self.interval.heading += noise * dt * np.array([-1, 1])
""","""        # with noise
        margin = dt * np.array([-1, 1])
        self.interval.position = self.interval.position + np.transpose([dx_i, dy_i]) * dt + margin[:, np.newaxis]
        self.interval.heading = self.interval.heading + d_psi_i * dt + margin
        self.interval.speed = self.interval.speed + dv_i * dt
""")
