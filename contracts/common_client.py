"""Shared by the contracts on the asynchronous client."""

from contracts import spec_models as M

INVERTER = 0x11


class Reply:
    """A successful answer: the reading side only ever looks at whether it is an exception."""

    error = False


def new_client(v, **k):
    return v.lib.client.Client("127.0.0.1", 8899, **k)


def record_reads(v, client, answer=lambda req: Reply()):
    """Replace the exchange with the device: every request asked for is noted, and answered by ``answer``
    (an exception instance is raised)."""
    log = []

    async def exchange(request, *a, **k):
        log.append(request)
        r = answer(request)
        if isinstance(r, BaseException):
            raise r
        return r

    v.patch(client, "send_request_and_await_response", exchange)
    return log


def reads(v, log):
    """(device, kind, base, count) of each read."""
    out = []
    for r in log:
        kind = "HR" if isinstance(r, v.lib.pdu.ReadHoldingRegistersRequest) else "IR" if isinstance(r, v.lib.pdu.ReadInputRegistersRequest) else None
        out.append((r.device_address, kind, r.base_register, r.register_count))
    return out


def spans(*pairs):
    return frozenset(i for a, b in pairs for i in range(a, b))


# the input registers of the inverter's own that a model's readings come from
def refresh_registers(name):
    s = set()
    if name not in M.EMS:
        s |= spans((0, 60), (180, 240))
    else:
        s |= spans((2040, 2095))
    if name in M.THREE_PHASE:
        s |= spans((1000, 1414))
    if name in M.GATEWAY:
        s |= spans((1600, 1860))
    return frozenset(s)


# the settings registers (holding, input) of the inverter that a model has
def config_registers(name, extended):
    hr, ir = set(range(60)), set()
    if name not in M.EMS:
        hr |= spans((60, 180))
        ir |= spans((120, 180))
    else:
        hr |= spans((2040, 2076))
    if name in M.THREE_PHASE:
        hr |= spans((1000, 1125))
    if extended:
        hr |= spans((240, 300))
    if name in M.AC_CONFIG:
        hr |= spans((300, 360))
    return frozenset(hr), frozenset(ir)
