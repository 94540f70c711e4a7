"""A running application over the simulated adapter, with every delivery to a device recorded."""
import zigpy.device
import zigpy.types

from mc import mt
from mc.world import World, check, result_of
from mc.znp import Znp

_net = None
_real = {k: getattr(zigpy.device.Device, k)
         for k in ("__init__", "handle_message", "schedule_initialize",
                   "schedule_group_membership_scan")}


def _init(self, *a, **k):
    _real["__init__"](self, *a, **k)
    if _net is not None and _net.ready_devices:
        self.status = zigpy.device.Status.ENDPOINTS_INIT


def _handle_message(self, profile, cluster, src_ep, dst_ep, message):
    if _net is not None:
        _net.delivered(self, profile, cluster, src_ep, dst_ep, message)
        if not _net.run_devices:
            return None
    return _real["handle_message"](self, profile, cluster, src_ep, dst_ep, message)


def _schedule_initialize(self):
    if _net is not None and not _net.run_devices:
        _net.initialized.append(key(self.ieee))
        return None
    return _real["schedule_initialize"](self)


def _scan(self):
    if _net is not None and not _net.run_devices:
        return None
    return _real["schedule_group_membership_scan"](self)


zigpy.device.Device.__init__ = _init
zigpy.device.Device.handle_message = _handle_message
zigpy.device.Device.schedule_initialize = _schedule_initialize
zigpy.device.Device.schedule_group_membership_scan = _scan


def key(ieee):
    """wire order bytes of an EUI64"""
    return bytes(ieee.serialize())


def eui(wire):
    return zigpy.types.EUI64.deserialize(bytes(wire))[0]


# addresses chosen so that byte-swapped, truncated or neighbouring values name other devices
A = (bytes([0xA1, 2, 3, 4, 5, 6, 7, 8]), 0x1234)
B = (bytes([0xB1, 2, 3, 4, 5, 6, 7, 8]), 0x3412)
C = (bytes([8, 7, 6, 5, 4, 3, 2, 0xA1]), 0x0034)
DEVICES = (A, B, C)


class Message:
    __slots__ = ("time", "ieee", "profile", "cluster", "src_ep", "dst_ep", "data", "lqi")

    def __init__(self, *a):
        for n, v in zip(self.__slots__, a):
            setattr(self, n, v)

    def __repr__(self):
        return "%.3f to %s: cluster 0x%04x ep %s->%s %s lqi %s" % (
            self.time, self.ieee.hex(), self.cluster, self.src_ep, self.dst_ep,
            self.data.hex(), self.lqi)


class Listener:
    def __init__(self, net):
        self.net = net

    def device_joined(self, dev):
        self.net.joined.append((key(dev.ieee), int(dev.nwk)))


class Net(World):
    def __init__(self, chooser, product=1, devices=DEVICES, horizon=2000.0, znp=None, start=True,
                 form=False, ready_devices=True, run_devices=False, **kw):
        global _net
        super().__init__(chooser, znp or Znp(product, running=True), horizon, **kw)
        _net = self
        self.ready_devices = ready_devices
        self.run_devices = run_devices
        self.messages = []
        self.joined = []
        self.initialized = []
        self.on_message = None
        self.application = self.app()
        self.application.add_listener(Listener(self))
        for ieee, nwk in devices:
            self.application.add_device(eui(ieee), nwk)
        if start:
            self.start(form)

    def start(self, form=False):
        self.loop.tick_cost = None
        task = self.run(self.application.startup(form))
        self.loop.tick_cost = 1
        r = result_of(task)
        check(r[0] == "ok", "start-up failed: %r", r)
        self.mark = len(self.cmds)
        self.started = self.now

    def sent(self):
        """Commands since start-up."""
        return self.cmds[self.mark:]

    def delivered(self, dev, profile, cluster, src_ep, dst_ep, message):
        m = Message(self.now, key(dev.ieee), int(profile), int(cluster), int(src_ep),
                    int(dst_ep), bytes(message), dev.lqi)
        self.messages.append(m)
        if self.on_message is not None:
            self.on_message(m)

    def device(self, ieee):
        return self.application.get_device(ieee=eui(ieee))

    def close(self):
        global _net
        super().close()
        _net = None


def incoming(nwk, cluster=0x0006, src_ep=1, dst_ep=1, data=b"\x01\x02\x03", lqi=77, group=0,
             tsn=0, wasbroadcast=0, securityuse=0, timestamp=0):
    return mt.encode("AF", "incomingMsg", dict(
        groupid=group, clusterid=cluster, srcaddr=nwk, srcendpoint=src_ep, dstendpoint=dst_ep,
        wasbroadcast=wasbroadcast, linkquality=lqi, securityuse=securityuse, timestamp=timestamp,
        transseqnumber=tsn, len=len(data), data=data))


def incoming_ext(mode, addr, cluster=0x0006, src_ep=1, dst_ep=1, data=b"\x01\x02\x03", lqi=77,
                 group=0, panid=0, tsn=0, wasbroadcast=0, securityuse=0, timestamp=0):
    if isinstance(addr, int):
        addr = addr.to_bytes(8, "little")
    return mt.encode("AF", "incomingMsgExt", dict(
        groupid=group, clusterid=cluster, srcaddrmode=mode, srcaddr=addr, srcendpoint=src_ep,
        srcpanid=panid, dstendpoint=dst_ep, wasbroadcast=wasbroadcast, linkquality=lqi,
        securityuse=securityuse, timestamp=timestamp, transseqnumber=tsn, len=len(data),
        data=data))


def announce(nwk, ieee, src=None, capabilities=0x80):
    return mt.encode("ZDO", "endDeviceAnnceInd", dict(
        srcaddr=nwk if src is None else src, nwkaddr=nwk, ieeeaddr=ieee,
        capabilities=capabilities))


class Two(Net):
    """two applications over two adapters in one process"""

    def __init__(self, ch, products=(2, 2), **kw):
        super().__init__(ch, products[0], start=False, horizon=4000.0, **kw)
        self.second = self.ports.add("/dev/zero")
        self.second.on_write = self._host_wrote
        self.second.on_open = self._opened
        other = Znp(products[1], running=True)
        other.ieee = bytes(range(0x50, 0x58))
        self.znps = {"/dev/null": self.znp, "/dev/zero": other}
        self.fault = lambda handle, cmd: self.znps[handle.line.path].command(cmd)
        self.loop.tick_cost = None
        self.path = "/dev/zero"
        self.apps = [self.application, self.app()]
        for ieee, nwk in (A, B):
            self.apps[1].add_device(eui(bytes(reversed(ieee))), nwk)
        for a in self.apps:
            r = result_of(self.run(a.startup(False)))
            check(r[0] == "ok", "start-up ended with %r", r)
        self.settle()
        self.marks = len(self.cmds)

    def handle_of(self, i):
        """the connection of adapter i"""
        hs = [h for h in self.ports.open_handles() if h.line.path == PATHS[i]]
        return hs[-1] if hs else None

    def ieee(self, i, dev):
        return dev[0] if i == 0 else bytes(reversed(dev[0]))


PATHS = ("/dev/null", "/dev/zero")
