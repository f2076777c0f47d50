#!/usr/bin/env python3
"""Prints the numbers of specs/Srgb.tla's table."""
from decimal import Decimal, getcontext
getcontext().prec = 40
for k in range(2049):
    s = Decimal(k)/Decimal(1024)
    v = s/Decimal('12.92') if s <= Decimal('0.04045') else ((s + Decimal('0.055'))/Decimal('1.055'))**Decimal('2.4')
    print(int((v*(1 << 24)).to_integral_value()))
