#!/usr/bin/env python3
"""Builds the symbolic executor and its runtime."""
import check
check.ensure_engine(); print("engine ready")
