"""The metrics docket reports, heard at the OpenTelemetry API: which instrument (by name), how much, with which labels."""
from __future__ import annotations

from opentelemetry import metrics

from . import core


class Instrument:
    def __init__(self, name):
        self.name = name

    def add(self, amount, attributes=None, context=None, **k):
        if core.CURRENT is not None and self.name != "docket_cache_size": heard(core.CURRENT).append((self.name, amount, dict(attributes or {})))

    record = set = add


class Meter(metrics.NoOpMeter):
    def create_counter(self, name, *a, **k): return Instrument(name)
    create_up_down_counter = create_histogram = create_gauge = create_counter


class Provider(metrics.MeterProvider):
    def get_meter(self, name, *a, **k): return Meter(name)


def heard(c) -> list:
    """everything reported in this run so far"""
    if not hasattr(c, "metered"): c.metered = []
    return c.metered


def total(entries, name):
    return sum(n for x, n, _ in entries if x == name)


def install():
    metrics.set_meter_provider(Provider())
