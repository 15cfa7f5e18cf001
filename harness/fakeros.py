"""A stand-in for the ROS packages (rosbag, rospy, cv_bridge), none of which is installed here.

A bag is a pickle of [(topic, type name, header stamp in ns, record time in s, fields)].  As with the real
package, the messages are instances of classes that are generated in a module with a random name."""
import pickle
import sys
import types


class NS(types.SimpleNamespace):
    pass


class Stamp(NS):
    def __str__(self):
        return str(self.secs * 10 ** 9 + self.nsecs)


def ns(x):
    if isinstance(x, dict):
        return NS(**{k: ns(v) for k, v in x.items()})
    return x


def message(type_name, stamp_ns, frame, fields):
    name = "_" + type_name.replace("/", "__")
    # the class is printed as <class 'tmpr4nd0m._sensor_msgs__Imu'>
    cls = type(name, (NS,), {"__module__": "tmpr4nd0m"})
    m = cls(**{k: ns(v) for k, v in fields.items()})
    m._type = type_name
    m.header = NS(stamp=Stamp(secs=stamp_ns // 10 ** 9, nsecs=stamp_ns % 10 ** 9), frame_id=frame)
    return m


class Time(float):
    @classmethod
    def from_sec(cls, x):
        return cls(x)

    def to_sec(self):
        return float(self)


class Bag:
    def __init__(self, f, mode="r", *a, **k):
        assert mode == "r"
        with open(f, "rb") as s:
            magic = s.read(8)
            if magic != b"#FAKEBAG":
                raise IOError("not a bag: %s" % f)
            self.rows = pickle.loads(s.read())

    def read_messages(self, topics=None, start_time=None, end_time=None, **k):
        if isinstance(topics, str):
            topics = [topics]
        for topic, kind, stamp, rec, frame, fields in sorted(self.rows, key=lambda r: r[3]):
            if topics is not None and topic not in topics:
                continue
            if start_time is not None and rec < float(start_time) or end_time is not None and rec > float(end_time):
                continue
            if kind == "CORRUPT":
                raise IOError("corrupt chunk")
            yield topic, message(kind, stamp, frame, fields), Time(rec)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class CvBridge:
    def imgmsg_to_cv2(self, msg, desired_encoding="passthrough"):
        import numpy as np

        a = np.frombuffer(msg.data, np.uint8).reshape(msg.height, msg.width, -1)
        return a[:, :, 0].copy() if a.shape[2] == 1 else a.copy()


def write(path, rows):
    path.write_bytes(b"#FAKEBAG" + pickle.dumps(rows))


def install():
    for name, attrs in {"rosbag": {"Bag": Bag}, "rospy": {"Time": Time}, "cv_bridge": {"CvBridge": CvBridge}}.items():
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
