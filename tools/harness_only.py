#!/usr/bin/env python3
"""The concrete half of a check alone, for measuring what it detects without the proof (development only)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.prove = lambda *a: None
sys.exit(check.main())
