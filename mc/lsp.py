"""Drives the language server in process: JSON-RPC messages in, answers out, no threads or sockets."""

from __future__ import annotations

import asyncio
import json


class _Transport:
    def __init__(self):
        self.out = []

    def write(self, data):
        self.out.append(data)

    def close(self):
        pass

    def is_closing(self):
        return False

    def get_extra_info(self, *_):
        return None


def _get_server():
    from pygerber.gerber.language_server._server.server import get_server

    return get_server()


class Client:
    def __init__(self):
        self.server = _get_server()
        self.loop = self.server.loop
        self.transport = _Transport()
        self.server.lsp.connection_made(self.transport)
        self.next_id = 0
        self.answers = {}
        self.send([self.request("initialize", {"processId": None, "rootUri": None, "capabilities": {}})])
        self.send([self.note("initialized", {})])

    def close(self):
        self.loop.close()

    def note(self, method, params):
        return {"jsonrpc": "2.0", "method": method, "params": params}

    def request(self, method, params):
        self.next_id += 1
        return {"jsonrpc": "2.0", "id": self.next_id, "method": method, "params": params}

    def send(self, messages):
        """Delivers the messages as one chunk of bytes, then runs the server until it is idle."""
        data = b""
        for m in messages:
            b = json.dumps(m).encode()
            data += b"Content-Length: %d\r\n\r\n" % len(b) + b
        self.server.lsp.data_received(data)
        idle = 0
        while idle < 3:
            self.loop.run_until_complete(asyncio.sleep(0))
            busy = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
            idle = 0 if busy else idle + 1
        for raw in self.transport.out:
            msg = json.loads(raw.split(b"\r\n\r\n", 1)[1])
            if "method" not in msg:
                self.answers.setdefault(msg.get("id"), []).append(msg)
        self.transport.out.clear()

    # document level
    def m_open(self, uri, text):
        return self.note("textDocument/didOpen",
                         {"textDocument": {"uri": uri, "languageId": "gerber", "version": 1, "text": text}})

    def m_change(self, uri, changes, version=2):
        return self.note("textDocument/didChange",
                         {"textDocument": {"uri": uri, "version": version}, "contentChanges": changes})

    def m_close(self, uri):
        return self.note("textDocument/didClose", {"textDocument": {"uri": uri}})

    def m_hover(self, uri, line, col):
        return self.request("textDocument/hover", {"textDocument": {"uri": uri}, "position": {"line": line, "character": col}})

    def m_complete(self, uri, line, col):
        return self.request("textDocument/completion",
                            {"textDocument": {"uri": uri}, "position": {"line": line, "character": col}})

    def ask(self, message):
        self.send([message])
        return self.answer(message)

    def answer(self, message):
        got = self.answers.get(message["id"], [])
        if len(got) != 1:
            return {"answers": len(got)}
        a = got[0]
        if "error" in a:
            return {"error": a["error"].get("message")}
        return {"result": a.get("result")}
