#!/usr/bin/env python3
"""Checks that the tools every check needs are present and that the engine builds (checks build what they use themselves)."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='')
sys.exit(subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', H + '/build/engine-target'],
                        cwd=H + '/engine', env=e).returncode)
