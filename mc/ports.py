"""Serial ports as pyserial lists them."""
from serial.tools.list_ports_common import ListPortInfo


def comport(device, vid=None, pid=None, serial_number=None, description=None):
    p = ListPortInfo(device)
    p.description = description or device
    if vid is not None:
        p.vid, p.pid = vid, pid
        p.serial_number = serial_number
        p.hwid = "USB VID:PID=%04X:%04X%s LOCATION=1-1" % (
            vid, pid, " SER=%s" % serial_number if serial_number else "")
    return p
