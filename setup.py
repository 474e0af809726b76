#!/usr/bin/env python3
"""builds engine and harness once"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build()
print("ok")
