"""Answers from processes in which nothing else ever happened.

A server is forked when it is made; for every question it forks again, and
that child answers.  Whatever the asking process did since then (and whatever
the code under test keeps in module or class variables) cannot reach it.
"""
import os
import pickle
import signal
import struct
import sys
import traceback


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                return None
            out += part
        return out

    head = take(8)
    return None if head is None else pickle.loads(take(struct.unpack("<q", head)[0]))


class Failed(Exception):
    def __init__(self, text, inside):
        Exception.__init__(self, "in a fresh process: " + text)
        self.inside = inside  # the code under test failed, not the harness


class Server:
    def __init__(self, fn):
        ask_r, ask_w = os.pipe()
        ans_r, ans_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(ask_w)
            os.close(ans_r)
            while True:
                q = recv(ask_r)
                if q is None:
                    os._exit(0)
                child = os.fork()
                if child == 0:
                    signal.alarm(100)
                    try:
                        a = (True, fn(*q))
                    except BaseException as ex:
                        inside = any("/pkg/pykrige/" in f.filename for f in traceback.extract_tb(ex.__traceback__))
                        a = (False, ("".join(traceback.format_exception(ex))[-2000:], inside))
                    send(ans_w, a)
                    os._exit(0)
                if os.waitpid(child, 0)[1]:
                    os._exit(1)
        os.close(ask_r)
        os.close(ans_w)
        self.w, self.r = ask_w, ans_r

    def __call__(self, *q):
        send(self.w, q)
        a = recv(self.r)
        if a is None:
            raise Failed("the reference process ended", True)
        if not a[0]:
            raise Failed(*a[1])
        return a[1]

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
