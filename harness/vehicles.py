"""Vehicle classes of the harness: environments of intersections change the parameters of the class they are given."""
from highway_env.vehicle.behavior import IDMVehicle


class PrivateVehicle(IDMVehicle):
    pass


class LoggedVehicle(IDMVehicle):
    """Keeps, in order, those made, with what their road looked like then."""
    log = []

    def __init__(self, road, *args, **kwargs):
        super().__init__(road, *args, **kwargs)
        self.told = False
        type(self).log.append((self, self.position.copy(), float(self.heading), float(self.speed), [(v, v.position.copy()) for v in road.vehicles],
                               int(getattr(road, "steps", -1))))

    def randomize_behavior(self):
        self.told = True
        return super().randomize_behavior()
