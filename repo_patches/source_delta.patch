From c835e0efc1c0485dc46d48553eb27a059f2d5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 01/51] fix: never leave partially serialized packets on the
 connection

---
 src/fora/connectors/tunnel_dispatcher.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..38e6a18 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -262,10 +263,16 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Serialize everything up front, so that a value that cannot be serialized
+    # will never leave a partially written packet on the connection.
+    staging = io.BytesIO()
+    staging_conn = Connection(conn.buffer_in, staging)
+    _serialize(staging_conn, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(staging_conn, ftype, getattr(this, f))
+    data = staging.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From 7ec6b4d5dcdf0b99114d93893f1f8d9d08da5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 02/51] fix: treat short reads in the tunnel protocol as
 connection errors

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 38e6a18..a94ebcb 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -169,7 +169,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From 34efde1c012817ce8f8fd75c665cb9b1c78a42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 03/51] fix: transfer timestamps before the epoch in stat
 results

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index a94ebcb..c01ac66 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -439,8 +439,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -493,8 +493,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From 6a5f97a24180a750f8c7765c6d1e130a878694c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 04/51] fix: don't hand the dispatcher's protocol streams to
 executed processes

---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index c01ac66..23da933 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -418,9 +418,12 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # Our own stdin and stdout are used to exchange packets, so the process must never inherit them.
+            output_options: dict[str, Any] = {"capture_output": True} if self.capture_output else {"stdout": sys.stderr}
+            input_options: dict[str, Any] = {"stdin": subprocess.DEVNULL} if self.stdin is None else {"input": self.stdin}
             result = subprocess.run(self.command,
-                input=self.stdin,
-                capture_output=self.capture_output,
+                **input_options,
+                **output_options,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
                 check=False)
-- 
2.43.0


From ea37d2a4b7369c413d8649257746170f1fd00536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 05/51] fix: answer requests that fail with exceptions other
 than OSError

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 23da933..1fe5a38 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -808,7 +808,10 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            conn.write_packet(PacketOSError(errno=i64(e.errno or sys_errno.EIO), strerror=e.strerror or str(e), msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # Malformed requests (e.g. embedded null bytes in paths) must be answered, and must not end the dispatcher.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=f"{type(e).__name__}: {str(e)}", msg=str(e)))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From 1e82fbfa097118dcadfa95cea07ada2d16e43d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 06/51] fix: keep setuid and setgid bits when uploading files
 with an owner

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 1fe5a38..fa3ed61 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -594,10 +594,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # Changing the owner resets setuid and setgid bits, so the mode must be applied afterwards.
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
-- 
2.43.0


From 05c146557c40a5ea13514f6bfab6d0fcda1e4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 07/51] fix: drop supplementary groups when running a command
 as another user

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index fa3ed61..3e748f9 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -409,6 +409,9 @@ class PacketProcessRun(NamedTuple):
             Sets umask and becomes the correct user.
             """
             os.umask(umask_oct)
+            if uid is not None and gid is not None and uid != os.geteuid():
+                # Don't let the other user keep our supplementary groups.
+                os.initgroups(getpwuid(uid).pw_name, gid)
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
-- 
2.43.0


From ab0a6ea5a421a76b4600bb7988eaf2e9b65d2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:56 +0000
Subject: [PATCH 08/51] fix: transfer file names and environment values that
 aren't valid utf-8

---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 3e748f9..4a9e7f2 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -204,7 +204,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', errors='surrogateescape'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -230,7 +230,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', errors='surrogateescape')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From 856a2ffa17c0c14eb8181afec0ea6b1a1a93f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:40 +0000
Subject: [PATCH 09/51] fix: report failed commands whose output wasn't
 captured

---
 src/fora/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From 6f4ce773e61e65e8cc11dc90c92570f4b908211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 10/51] fix: report out of range ids as nonexistent accounts

---
 src/fora/connectors/tunnel_dispatcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 4a9e7f2..2af9c59 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -114,7 +114,7 @@ def _resolve_user(user: str) -> tuple[int, int]:
             uid = int(user)
             try:
                 pw = getpwuid(uid)
-            except KeyError:
+            except (KeyError, OverflowError):
                 raise ValueError(f"The user with the uid '{uid}' does not exist.") # pylint: disable=raise-missing-from
         except ValueError:
             raise ValueError(f"The user with the name '{user}' does not exist.") # pylint: disable=raise-missing-from
@@ -144,7 +144,7 @@ def _resolve_group(group: str) -> int:
             gid = int(group)
             try:
                 gr = getgrgid(gid)
-            except KeyError:
+            except (KeyError, OverflowError):
                 raise ValueError(f"The group with the gid '{gid}' does not exist.") # pylint: disable=raise-missing-from
         except ValueError:
             raise ValueError(f"The group with the name '{group}' does not exist.") # pylint: disable=raise-missing-from
@@ -526,7 +526,7 @@ class PacketResolveUser(NamedTuple):
             try:
                 uid = int(user)
                 pw = getpwuid(uid)
-            except (KeyError, ValueError):
+            except (KeyError, ValueError, OverflowError):
                 conn.write_packet(PacketInvalidField("user", "The user does not exist"))
                 return
 
@@ -551,7 +551,7 @@ class PacketResolveGroup(NamedTuple):
             try:
                 gid = int(group)
                 gr = getgrgid(gid)
-            except (KeyError, ValueError):
+            except (KeyError, ValueError, OverflowError):
                 conn.write_packet(PacketInvalidField("group", "The group does not exist"))
                 return
 
@@ -668,7 +668,7 @@ class PacketQueryUser(NamedTuple):
             try:
                 gid = int(self.user)
                 pw = getpwuid(gid)
-            except (KeyError, ValueError):
+            except (KeyError, ValueError, OverflowError):
                 conn.write_packet(PacketInvalidField("user", "The user does not exist"))
                 return
 
@@ -720,7 +720,7 @@ class PacketQueryGroup(NamedTuple):
             try:
                 gid = int(self.group)
                 gr = getgrgid(gid)
-            except (KeyError, ValueError):
+            except (KeyError, ValueError, OverflowError):
                 conn.write_packet(PacketInvalidField("group", "The group does not exist"))
                 return
 
-- 
2.43.0


From 49449ad28b08ccdc3275eaeab05eeeb974008c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:23 +0000
Subject: [PATCH 11/51] fix: order the host's declared variables before an
 explicitly declared all group

---
 src/fora/inventory_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..306db4a 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -434,9 +434,10 @@ class InventoryWrapper(ModuleWrapper):
         # Ensure "early-explicits" group is defined.
         self._group_decls["early-explicits"] = GroupDeclaration(name="early-explicits")
 
-        # Ensure "all" group is defined.
+        # Ensure "all" group is defined and ordered after the early explicits.
         if "all" not in self._group_decls:
-            self._group_decls["all"] = GroupDeclaration(name="all", after=["early-explicits"])
+            self._group_decls["all"] = GroupDeclaration(name="all")
+        self._group_decls["all"].after.append("early-explicits")
 
     def _ensure_used_groups_are_declared(self) -> None:
         """
-- 
2.43.0


From 047df1e4d87e6bad4323da8edbb6d8f3c57446d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 12/51] fix: decide variable conflicts by the dependencies
 between groups

---
 src/fora/inventory_wrapper.py | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 306db4a..249523b 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -545,6 +545,33 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on(self, group: str, other: str) -> bool:
+        """
+        Returns True if the given group is the other group, or if it (transitively) depends on it.
+
+        Parameters
+        ----------
+        group
+            The name of the possibly dependent group.
+        other
+            The name of the possible dependency.
+
+        Returns
+        -------
+        bool
+            Whether the group depends on the other group.
+        """
+        visited: set[str] = set()
+        pending = [group]
+        while len(pending) > 0:
+            current = pending.pop()
+            if current == other:
+                return True
+            if current not in visited:
+                visited.add(current)
+                pending.extend(self._group_decls[current].after)
+        return False
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -763,15 +790,12 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # If this group doesn't (transitively) depend on a previous defining module,
+                    # their relative order is arbitrary and overwriting is forbidden. We already know
+                    # that the current group is ordered after the previous group, as we are iterating
+                    # in topological order, so the inverse dependency cannot exist.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 77327a26e194c29c9c609f1647dbace4757a7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 13/51] fix: track variables that are first defined as None

---
 src/fora/inventory_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 249523b..7909239 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -780,8 +780,7 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-- 
2.43.0


From 86bf7a4991c031dd9c2e6284c821f1990065ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 14/51] fix: don't export the wrapped module of a group without
 module file as a variable

---
 src/fora/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..969c1a3 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -92,6 +92,7 @@ class ModuleWrapper:
         return not (attr.startswith("_")
                 or attr in type(self).__annotations__
                 or attr in type(self).__dict__
+                or attr in ModuleWrapper.__dict__
                 or isinstance(value, ModuleType))
 
     def exported_variables(self) -> dict[str, Any]:
-- 
2.43.0


From ccca8948a468e7e6ac9cf511352fc83670e451a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 15/51] fix: extract the hostname of ssh urls without slashes

---
 src/fora/connectors/ssh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..b649b18 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,9 +56,9 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh: or ssh://
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:].removeprefix("//")
 
         # Remove user
         pos = hostname.find("@")
-- 
2.43.0


From 5100ecfd1a08f0929d86b22a43246962a22a7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:01 +0000
Subject: [PATCH 16/51] fix: accept links to directories as working directory

---
 src/fora/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..814b7eb 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -92,7 +92,7 @@ class Connection:
         check_mask(settings.dir_mode, "dir_mode")
         check_mask(settings.umask, "umask")
         if settings.cwd:
-            s = self.stat(settings.cwd)
+            s = self.stat(settings.cwd, follow_links=True)
             if not s:
                 raise ValueError(f"The selected working directory '{settings.cwd}' doesn't exist!")
             if s.type != "dir":
-- 
2.43.0


From 91a013d3687f7194d83a38fd656d31807edae702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:53 +0000
Subject: [PATCH 17/51] fix: apply exactly the requested special mode bits in
 file operations

---
 src/fora/operations/files.py | 19 +++++++++++--------
 src/fora/operations/utils.py |  9 +++++----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..02e2e9d 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -125,14 +125,16 @@ def directory(path: str,
                 if op.changed("exists"):
                     conn.run(["mkdir", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
 
+                # Set correct mode, if needed. Changing the owner or group might
+                # clear special bits, so this must happen afterwards. Leading zeros
+                # are required to clear existing special bits of a directory.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
+
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
                     conn.run(["touch", "--", path])
@@ -215,13 +217,14 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the owner or group might
+                # clear special bits, so this must happen afterwards.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..3fda024 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,15 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the owner or group might
+                # clear special bits, so this must happen afterwards.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From d94a75b9b20d09843b01cf5ad772512c9d25e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:53 +0000
Subject: [PATCH 18/51] fix: replace links that refer to directories and keep
 the requested owner

---
 src/fora/operations/files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 02e2e9d..b5f211e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -294,7 +294,7 @@ def link(path: str,
 
             existing_target = conn.run(["readlink", "-n", path])
             # The link exists but may have a different target or different attributes
-            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode(), owner=stat.owner, group=stat.group, touched=False)
+            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode("utf-8", errors="surrogateescape"), owner=stat.owner, group=stat.group, touched=False)
 
         # Return success if nothing needs to be changed
         if op.unchanged():
@@ -303,12 +303,13 @@ def link(path: str,
         # Apply actions to reach desired state, but only if we are not doing a dry run
         if not fora.args.dry:
             if present:
-                # Create link if it doesn't exist
+                # Create link if it doesn't exist. An existing link must be replaced,
+                # instead of creating a new link inside of the directory it refers to.
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed (replacing a link resets these)
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 4363a131aab65eb67cd875b5ab51e8e98112c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 19/51] fix: edit exactly the matching lines in the line
 operation

---
 src/fora/operations/files.py | 38 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index b5f211e..6757de2 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -1,5 +1,6 @@
 """Provides operations related to creating and modifying files and directories."""
 
+import io
 import os
 import re
 from datetime import datetime, timezone
@@ -658,12 +659,21 @@ def line(path: str,
     check_absolute_path(path, f"{path=}")
     op.desc(path)
 
+    def matches(existing_line: str) -> bool:
+        """Checks whether the given existing line (possibly including its line ending) is the line in question."""
+        existing_line = existing_line.rstrip("\r\n")
+        if regex is not None:
+            return bool(re.search(regex, existing_line))
+        if ignore_whitespace:
+            return line.strip() == existing_line.strip()
+        return line == existing_line
+
     conn = fora.host.connection
     with op.defaults() as attr:
         op.final_state(line_present=present)
 
         orig_bytes: Optional[bytes] = None
-        orig_content: Optional[str] = None
+        lines: list[str] = []
         line_present: bool = False
 
         # Examine current state
@@ -677,13 +687,8 @@ def line(path: str,
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
             # Check whether the line is already contained
-            if regex is None:
-                if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
-                else:
-                    line_present = line in (orig_content or "").splitlines()
-            else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+            lines = list(io.StringIO(orig_content, newline=""))
+            line_present = any(matches(l) for l in lines)
 
         op.initial_state(line_present=line_present)
 
@@ -691,21 +696,16 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
         if present:
-            lines.append(line)
+            # Terminate the last line, if necessary
+            if lines and not lines[-1].endswith(("\r", "\n")):
+                lines[-1] += "\n"
+            lines.append(line + "\n")
         else:
             # Remove matching lines
-            if regex is None:
-                if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
-                else:
-                    lines = list(filter(lambda l: line != l, lines))
-            else:
-                # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
+            lines = [l for l in lines if not matches(l)]
 
-        new_content = "\n".join(lines) + "\n"
+        new_content = "".join(lines)
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 244556cb0afa5823b038f758041309455bd83896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 20/51] fix: append the backup suffix to the filename in the
 line operation

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 6757de2..55dd235 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -719,7 +719,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From 4efa9990ae4f3a3f98a1de5fc287efb55da7fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:24 +0000
Subject: [PATCH 21/51] fix: name the uploaded directory after the source if it
 is given with a trailing slash

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 55dd235..e5e0d9a 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -473,7 +473,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(os.path.abspath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From ab6bc9b5e58263e9f1e4d0bfc62ec24bfb4c61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 22/51] fix: apply empty, zero and cleared values in the user
 and group operations

---
 src/fora/operations/system.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..ff5a003 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -113,6 +113,11 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
     if groups is not None and not isinstance(groups, list):
         raise ValueError("Groups must be a list!")
 
+    def group_name(group_or_gid: str) -> str:
+        """Returns the name of the given group (name or gid), if it exists."""
+        entry = conn.query_group(group=group_or_gid)
+        return group_or_gid if entry is None else entry.name
+
     # Examine current state
     current = conn.query_user(user=user, query_password_hash=True)
     if current is None:
@@ -121,17 +126,16 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
-    target_group = group or (current.group if current else None)
-    if append_groups:
-        target_groups = set((groups or []) + (current.groups if current else []))
-    else:
-        target_groups = groups or (current.groups if current else [])
-    target_groups = sorted(list(target_groups))
-    target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
-    target_home = home or (current.home if current else '/dev/null')
-    target_shell = shell or (current.shell if current else '/sbin/nologin')
+    target_uid = uid if uid is not None else (current.uid if current else None)
+    target_group = group_name(group) if group is not None else (current.group if current else None)
+    target_groups = [group_name(g) for g in groups] if groups is not None else []
+    if current and (append_groups or groups is None):
+        target_groups += current.groups
+    target_groups = sorted(set(target_groups))
+    target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
+    target_home = home if home is not None else (current.home if current else '/dev/null')
+    target_shell = shell if shell is not None else (current.shell if current else '/sbin/nologin')
 
     if present:
         op.final_state(exists=True, uid=target_uid, group=target_group, groups=target_groups, comment=target_comment, home=target_home, shell=target_shell, password_hash=target_password_hash)
@@ -173,7 +177,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
                 create_command.extend(["--shell", target_shell])
 
                 # Password hash
-                if target_password_hash:
+                if target_password_hash is not None:
                     create_command.extend(["--password", target_password_hash])
 
                 # User's name
@@ -192,7 +196,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +265,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From c805b4b9ae2b7ac7109d8cf57c4b6350f8afe4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 23/51] fix: ignore duplicate packages in package operations

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3fda024..0b06217 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(set(packages)) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 2f33da64955041d761e3b13aface1a68811f455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 24/51] fix: query and modify packages non-interactively with
 apt

---
 src/fora/operations/apt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..9729db5 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,18 +9,18 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "install"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "install"] + opts + ["--", package])
 
 def _uninstall(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Uninstalls a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "remove"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "remove"] + opts + ["--", package])
 
 @package_manager(command="apt-get")
 @operation("package")
-- 
2.43.0


From 80443fcdd8f12b84275408878f91cffb602f4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 25/51] fix: examine the right service manager and don't report
 unrequested changes

---
 src/fora/operations/systemd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..4943cf7 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -90,25 +90,25 @@ def service(service: str, # pylint: disable=redefined-outer-name
         raise ValueError(f"Invalid target state '{state}'")
 
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
-    if op.unchanged(ignore_none=True):
+    if op.unchanged():
         return op.success()
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From 2e66af4ca891e71c9b01acde5f097c902dd208aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 26/51] fix: ignore states whose final value is None in
 Operation.unchanged

---
 src/fora/operations/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..ee1c228 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -137,7 +137,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k, v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
-- 
2.43.0


From b45efa8b92890baa0acf3033dbd0c849a35774b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 27/51] fix: return failed results instead of raising
 OperationErrors when checking is off

---
 src/fora/operations/api.py    |  2 ++
 src/fora/operations/system.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ee1c228..af7f57f 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -261,6 +261,8 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
+                if not check:
+                    return ret
                 # If we are not in debug mode, we modify the traceback such that the exception
                 # seems to originate at the calling site where the operation is called.
                 if fora.args.debug:
diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index ff5a003..153c049 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -344,7 +344,10 @@ def package(packages: list[str],
     conn = fora.host.connection
     package_fn = find_command(conn, utils.package_managers)
     if package_fn is None:
-        raise new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        error = new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, package_fn(packages=packages, present=present, name=name, check=check))
 
@@ -396,6 +399,9 @@ def service(service: str, # pylint: disable=redefined-outer-name
     conn = fora.host.connection
     service_fn = find_command(conn, utils.service_managers)
     if service_fn is None:
-        raise new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        error = new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, service_fn(service=service, state=state, enabled=enabled, name=name, check=check))
-- 
2.43.0


From c625db6c766bd57bd3416390fcd8a02dceaee55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:06 +0000
Subject: [PATCH 28/51] fix: determine the commit of exactly the requested
 branch or tag

---
 src/fora/operations/git.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..51c32ae 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -88,8 +88,17 @@ def repo(url: str,
         return op.success()
 
     # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    if branch_or_tag is None:
+        candidate_refs = ["HEAD"]
+    else:
+        # Same precedence as git clone: branches shadow tags. Annotated tags must be dereferenced to the tagged commit.
+        candidate_refs = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
+    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url] + candidate_refs)
+    remote_lines = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
+    remote_refs = {ref: commit for commit, ref in (l.split("\t", 1) for l in remote_lines)}
+    newest_commit = next((remote_refs[ref] for ref in candidate_refs if ref in remote_refs), None)
+    if newest_commit is None:
+        return op.failure(f"the remote repository '{url}' has no branch or tag '{branch_or_tag}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
-- 
2.43.0


From abdfc49ad3573886df56b59ff45625bd9f24bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 29/51] fix: refuse to update repositories with a different
 remote url in dry runs

---
 src/fora/operations/git.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index 51c32ae..00f27f1 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -106,6 +106,13 @@ def repo(url: str,
     if op.unchanged():
         return op.success()
 
+    if stat_path is not None:
+        # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
+        ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
+        current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+        if current_remote != url:
+            return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
+
     # Apply actions to reach new state, if we aren't in pretend mode
     if not fora.args.dry:
         if stat_path is None:
@@ -127,12 +134,6 @@ def repo(url: str,
                     submodule_cmd.extend(["--recursive"])
                 conn.run(submodule_cmd)
         elif update:
-            # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
-            ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
-            current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
-            if current_remote != url:
-                return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
-
             # Update the existing repository
             update_cmd = ["git", "-C", path, "pull"]
             if depth is not None:
-- 
2.43.0


From 78b80f5ddf93f096d478eca0a96534e9d5f12f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 30/51] fix: refuse to update repositories in which something
 else is checked out

---
 src/fora/operations/git.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index 00f27f1..d0afecd 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -93,12 +93,16 @@ def repo(url: str,
     else:
         # Same precedence as git clone: branches shadow tags. Annotated tags must be dereferenced to the tagged commit.
         candidate_refs = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url] + candidate_refs)
+    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--symref", "--", url] + candidate_refs)
     remote_lines = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
-    remote_refs = {ref: commit for commit, ref in (l.split("\t", 1) for l in remote_lines)}
-    newest_commit = next((remote_refs[ref] for ref in candidate_refs if ref in remote_refs), None)
-    if newest_commit is None:
+    remote_refs = {ref: commit for commit, ref in (l.split("\t", 1) for l in remote_lines if not l.startswith("ref: "))}
+    remote_symrefs = {ref: target for target, ref in (l[len("ref: "):].split("\t", 1) for l in remote_lines if l.startswith("ref: "))}
+    newest_ref = next((ref for ref in candidate_refs if ref in remote_refs), None)
+    if newest_ref is None:
         return op.failure(f"the remote repository '{url}' has no branch or tag '{branch_or_tag}'")
+    newest_commit = remote_refs[newest_ref]
+    if newest_ref in remote_symrefs:
+        newest_ref = remote_symrefs[newest_ref]
 
     op.final_state(initialized=True, commit=newest_commit)
 
@@ -113,6 +117,12 @@ def repo(url: str,
         if current_remote != url:
             return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
 
+        # Pulling updates only affects the branch that is currently checked out
+        ret_current_ref = conn.run(["git", "-C", path, "symbolic-ref", "--quiet", "HEAD"], check=False)
+        current_ref = (ret_current_ref.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+        if current_ref != newest_ref:
+            return op.failure(f"refusing to update existing git repository to '{newest_ref}' while '{current_ref or 'a detached HEAD'}' is checked out")
+
     # Apply actions to reach new state, if we aren't in pretend mode
     if not fora.args.dry:
         if stat_path is None:
-- 
2.43.0


From b4e65c6bd10fd4c8086ce9850aa4a04474ad1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:27 +0000
Subject: [PATCH 31/51] fix: update shallow repositories when the current
 commit leaves the fetched depth

---
 src/fora/operations/git.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index d0afecd..ed812b0 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -144,10 +144,11 @@ def repo(url: str,
                     submodule_cmd.extend(["--recursive"])
                 conn.run(submodule_cmd)
         elif update:
-            # Update the existing repository
-            update_cmd = ["git", "-C", path, "pull"]
+            # Update the existing repository. Fetch shallow updates beforehand, as git is unable
+            # to fast-forward if the same command moves the boundary past the current commit.
             if depth is not None:
-                update_cmd.extend(["--depth", str(depth)])
+                conn.run(["git", "-C", path, "fetch", "--depth", str(depth)])
+            update_cmd = ["git", "-C", path, "pull"]
             if rebase:
                 update_cmd.append("--rebase")
             if ff_only:
-- 
2.43.0


From 160c897c0e992701dd7303822fb3ef034121d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 32/51] fix: report the module file, not its directory, as the
 definition file

This made the check for recursive script calls ineffective, and let errors
and the inventory inspector refer to a directory.
---
 src/fora/types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 969c1a3..d19b6e3 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -168,9 +168,8 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
-            return "<internal>"
-        return self.module.__path__
+        file = getattr(self.module, "__file__", None)
+        return "<internal>" if file is None else str(file)
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From 4896a4760cc7e176b06f0ac7039fb17af58d2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 33/51] fix: make the inventory available in templates, instead
 of the host

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index e5e0d9a..54b76ff 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -50,7 +50,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 3e23f5fd0ea9b5d2635870460c39c747f36ba3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 34/51] fix: end and reap the tunnel process in all cases, and
 allow to reopen a connection

Closing a connection whose remote process has died raised a BrokenPipeError
(replacing the actual error), left the connector marked as open and didn't
reap the process. Closing while a large response was pending never returned.
---
 src/fora/connectors/tunnel_connector.py | 41 +++++++++++++++++++------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..d1afec1 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -66,21 +66,42 @@ class TunnelConnector(Connector):
             # If the connection failed for any reason, be sure to kill the background process.
             if not self.is_open:
                 self.process.terminate()
-                self.process = None
+                self._end_process(timeout=5)
 
         logger.connection_established()
 
     def close(self) -> None:
         if self.is_open:
-            self.conn.write_packet(td.PacketExit())
-
-        if self.process is not None:
-            if self.process.stdin is not None:
-                self.process.stdin.close()
-            self.process.wait()
-            if self.process.stdout is not None:
-                self.process.stdout.close()
-            self.process = None
+            self.is_open = False
+            try:
+                self.conn.write_packet(td.PacketExit())
+            except OSError:
+                # The remote process has already ended.
+                pass
+        self._end_process()
+
+    def _end_process(self, timeout: Optional[float] = None) -> None:
+        """Closes the tunnel and waits until the background process has ended.
+        If a timeout is given, the process will be killed when it is exceeded."""
+        process, self.process = self.process, None
+        if process is None:
+            return
+
+        # Both pipes must be closed before waiting, otherwise a process that
+        # still has an unread response to write will never end.
+        for pipe in (process.stdin, process.stdout):
+            try:
+                if pipe is not None:
+                    pipe.close()
+            except OSError:
+                # Buffered data cannot be delivered anymore if the process has ended.
+                pass
+
+        try:
+            process.wait(timeout=timeout)
+        except subprocess.TimeoutExpired:
+            process.kill()
+            process.wait()
 
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
-- 
2.43.0


From a64a59f7b5bca27f62e14365604b285bfc1d4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 35/51] fix: close the connection if the identity on the host
 cannot be determined

---
 src/fora/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index 814b7eb..03f741c 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -31,7 +31,11 @@ class Connection:
     def __enter__(self) -> Connection:
         self.connector.open()
         self.host.connection = self
-        self._resolve_identity()
+        try:
+            self._resolve_identity()
+        except BaseException:
+            self.__exit__(None, None, None)
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
-- 
2.43.0


From 99d22faad9983e4ba256c36856a489fadeaa8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:04 +0000
Subject: [PATCH 36/51] fix: escape all non-printable characters in
 decode_escape

---
 src/fora/logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..8145fa6 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -165,10 +165,13 @@ def decode_escape(data: bytes, encoding: str = 'utf-8') -> str:
         if c in special:
             return special[c]
 
+        if c.isprintable():
+            return c
+
         num = ord(c)
-        if not c.isprintable() and num <= 0xff:
+        if num <= 0xff:
             return f"\\x{num:02x}"
-        return c
+        return f"\\u{num:04x}" if num <= 0xffff else f"\\U{num:08x}"
     return ''.join([escape_char(c) for c in data.decode(encoding, 'backslashreplace')])
 
 def diff(filename: str, old: Optional[bytes], new: Optional[bytes], color: bool = True) -> list[str]:
-- 
2.43.0


From fdb8824b3bec9fd6fef7c05e521562668064d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:04 +0000
Subject: [PATCH 37/51] fix: don't color diffs if color is disabled

---
 src/fora/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index 8145fa6..fbfa806 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -309,7 +309,7 @@ def print_operation(op: Any, result: Any) -> None:
         diff_lines = []
         # Generate diffs
         for file, old, new in op.diffs:
-            diff_lines.extend(diff(file, old, new))
+            diff_lines.extend(diff(file, old, new, color=use_color()))
         # Print diffs with block character line
         if len(diff_lines) > 0:
             for l in diff_lines[:-1]:
-- 
2.43.0


From b922a8825b730db6f59b3396151b130dded86bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:56 +0000
Subject: [PATCH 38/51] fix: example deploys use the functions that exist

The dotfiles layout called host.home_dir() and the nginx task called
files.line_in_file(), neither of which exist, so the generated deploys failed.
---
 src/fora/example_deploys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index db92bf8..1145d58 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -38,10 +38,10 @@ files.template(
     name="Create the site definition",
     src="templates/site.j2",
     dest=f"/etc/nginx/sites/{params.site}")
-files.line_in_file(
-    name="Add ",
-    file="/etc/nginx/sites",
-    line=f"sites/{params.site}")
+files.line(
+    name="Add the site to the main configuration",
+    path="/etc/nginx/nginx.conf",
+    line=f"include sites/{params.site};")
 """)
 
 _nginx_site_j2 = dedent("""\
@@ -183,7 +183,7 @@ def init_structure_dotfiles() -> None:
         from fora.operations import files
 
         # Get home directory of current user
-        home = host.home_dir()
+        home = host.connection.home_dir()
 
         # zsh
         files.upload(src="zsh/zshrc", dest=f"{home}/.zshrc")
-- 
2.43.0


From 24566860ac675975626e0456b80fcd3f0c2e66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 39/51] fix: an error about a field the request doesn't have is
 a connection error

---
 src/fora/connectors/tunnel_dispatcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 2af9c59..b469e7e 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -783,6 +783,8 @@ def receive_packet(conn: Connection, request: Any = None) -> Any:
         if isinstance(packet, PacketOSError):
             raise RemoteOSError(msg=packet.msg, errno=packet.errno, strerror=packet.strerror)
         if isinstance(packet, PacketInvalidField):
+            if packet.field not in getattr(request, "_fields", ()):
+                raise IOError(f"Received an error about the field '{packet.field}', which is not part of the request")
             raise ValueError(f"Invalid value '{getattr(request, packet.field)}' given for field '{packet.field}': {packet.error_message}")
         return packet
     except struct.error as e:
-- 
2.43.0


From 1b9d80aad229025b7e7b0259d9ef49713819b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:44 +0000
Subject: [PATCH 40/51] fix: an impossible length in the data stream is a
 connection error

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b469e7e..49d3a64 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -169,7 +169,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        data = self.buffer_in.read(count)
+        try:
+            data = self.buffer_in.read(count)
+        except (OverflowError, MemoryError):
+            raise IOError(f"Invalid length {count} in data stream") from None
         if len(data) != count:
             raise IOError("Unexpected EOF in data stream")
         return data
-- 
2.43.0


From ee0b489669edfec8338ae96e0e3016ece729c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:31 +0000
Subject: [PATCH 41/51] fix: variable conflict detection notices nested
 modifications and ignores unmodified opaque objects

---
 src/fora/inventory_wrapper.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 7909239..67e776a 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -103,6 +103,29 @@ class GroupDeclaration:
     Duplicates are ignored.
     """
 
+def _snapshot(value: Any) -> Any:
+    """
+    Returns a copy of the given value to compare it against later. Containers are copied recursively
+    to notice modifications of nested values. Objects that are only equal to themselves aren't copied,
+    as they would always compare as modified.
+
+    Parameters
+    ----------
+    value
+        The value to create a snapshot of.
+
+    Returns
+    -------
+    Any
+        The snapshot.
+    """
+    if isinstance(value, dict):
+        return {k: _snapshot(v) for k,v in value.items()}
+    if isinstance(value, (list, tuple)):
+        items = [_snapshot(v) for v in value]
+        return items if isinstance(value, list) else tuple(items)
+    return value if type(value).__eq__ is object.__eq__ else copy(value)
+
 @dataclass
 class InventoryWrapper(ModuleWrapper):
     """
@@ -803,7 +826,7 @@ class InventoryWrapper(ModuleWrapper):
                             conflicts.append((prev.action, prev.actor, cur_action, actor, attr))
 
                 # Record this change for later analyses
-                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, copy(value)))
+                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, _snapshot(value)))
 
         # Create a transient group reflecting the already known variables of the host:
         # Aggregate any variables explicitly defined by the inventory for this host (HostDeclaration.vars).
-- 
2.43.0


From 80d3f1317ca94cff88d6cf566cf97eeed6c5f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:54 +0000
Subject: [PATCH 42/51] fix: text that can't be encoded in the output doesn't
 abort a deploy

---
 src/fora/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fora/main.py b/src/fora/main.py
index 2ae7990..8a33a6b 100644
--- a/src/fora/main.py
+++ b/src/fora/main.py
@@ -213,6 +213,12 @@ def main(argv: Optional[list[str]] = None) -> None:
     """
     if argv is None:
         argv = sys.argv[1:]
+
+    # Displaying text must never abort a deploy, so escape what the output encoding
+    # can't represent (python already does the same for stderr).
+    if hasattr(sys.stdout, 'reconfigure'):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     parser = ThrowingArgumentParser(description="Runs a fora script.")
 
     # General options
-- 
2.43.0


From ca57cd41c306fc37b52c83c04cc39487564cbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 43/51] fix: the output of failed commands is escaped as
 announced

---
 src/fora/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 3149746..5e056bd 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -19,7 +19,7 @@ from types import ModuleType, TracebackType
 from typing import Any, Collection, NoReturn, Type, TypeVar, Callable, Iterable, Optional, Union
 
 import fora
-from fora.logger import col
+from fora.logger import col, decode_escape
 
 class FatalError(Exception):
     """An exception type for fatal errors, optionally including a file location."""
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print("\n".join(decode_escape(line) for line in (err.stdout or b"").split(b"\n")), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print("\n".join(decode_escape(line) for line in (err.stderr or b"").split(b"\n")), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From a42e4994db20fcbf18a5f15fdf6c89b18e0d0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 44/51] fix: connecting via ssh doesn't need an unversioned
 python on the remote host

---
 src/fora/connectors/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index b649b18..deaf56a 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -47,7 +47,7 @@ class SshConnector(TunnelConnector):
         command = ["ssh"]
         command.extend(self.ssh_opts)
         command.append(self.url)
-        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
+        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python3 -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
 
         return command
 
-- 
2.43.0


From d6386dd65e6597d2bc8010c5d1d6fc3c65e03512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:05 +0000
Subject: [PATCH 45/51] fix: a ValueError in a group or host module is reported
 with its location

---
 src/fora/loader.py |  6 +++++-
 src/fora/utils.py  | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fora/loader.py b/src/fora/loader.py
index 6118122..2f9f910 100644
--- a/src/fora/loader.py
+++ b/src/fora/loader.py
@@ -11,7 +11,7 @@ import fora
 from fora import logger
 from fora.inventory_wrapper import InventoryWrapper
 from fora.types import ScriptWrapper
-from fora.utils import FatalError, load_py_module, print_process_error
+from fora.utils import FatalError, load_py_module, print_process_error, raised_in_dynamic_module
 
 script_stack: list[tuple[ScriptWrapper, inspect.FrameInfo]] = []
 """A stack of all currently executed scripts ((name, file), frame)."""
@@ -80,6 +80,10 @@ def load_inventory(inventory_file_or_host_url: str) -> None:
     try:
         wrapper.load()
     except ValueError as e:
+        # An error inside of a group or host module is not an invalid definition
+        # in the inventory, and is only understandable with its original location.
+        if raised_in_dynamic_module(e):
+            raise
         raise FatalError(str(e), loc=wrapper.definition_file()) from e
 
 def run_script(script: str,
diff --git a/src/fora/utils.py b/src/fora/utils.py
index 5e056bd..d8fd585 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -145,6 +145,18 @@ def load_py_module(file: str, pre_exec: Optional[Callable[[ModuleType], None]] =
     loader.exec_module(mod)
     return mod
 
+def raised_in_dynamic_module(err: BaseException) -> bool:
+    """
+    Returns whether the given exception was raised while executing
+    the contents of a dynamically loaded module.
+    """
+    tb = err.__traceback__
+    while tb:
+        if tb.tb_frame.f_locals.get("__name__", None) in dynamically_loaded_modules:
+            return True
+        tb = tb.tb_next
+    return False
+
 def rank_sort(vertices: Iterable[T], preds_of: Callable[[T], Iterable[T]], childs_of: Callable[[T], Iterable[T]]) -> dict[T, int]:
     """
     Calculates the top-down rank for each vertex. Supports graphs with multiple components.
-- 
2.43.0


From 5c6588b57fe2931cf6f741134bcb3f403623ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:38 +0000
Subject: [PATCH 46/51] fix: the portage package operation is described by its
 packages

---
 src/fora/operations/portage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..e433d38 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From f001bbdb7efb88625fe9b906d69b10fd07ec59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:10 +0000
Subject: [PATCH 47/51] fix: upload_dir doesn't confuse directories if a path
 contains a link followed by ..

---
 src/fora/operations/files.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 54b76ff..1d1d897 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -4,7 +4,7 @@ import io
 import os
 import re
 from datetime import datetime, timezone
-from os.path import join, relpath, normpath
+from os.path import join, relpath
 from typing import Optional, Union
 
 from jinja2 import Environment, StrictUndefined, Template
@@ -481,10 +481,10 @@ def upload_dir(src: str,
         # together with their source counterpart
         dirs: list[str] = [dest]
         files: list[tuple[str, str]] = []
-        for root, subdirs, subfiles in os.walk(src):
-            root = relpath(root, start=src)
-            sroot = normpath(join(src, root))
-            droot = normpath(join(dest, root))
+        for sroot, subdirs, subfiles in os.walk(src):
+            # Paths must not be normalized, as .. may follow a link.
+            root = relpath(sroot, start=src)
+            droot = dest if root == "." else join(dest, root)
             for d in subdirs:
                 dirs.append(join(droot, d))
             for f in subfiles:
-- 
2.43.0


From 066becf7feef244a88b2ceb5188c3aaae80e3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 48/51] fix: group variables may refer to themselves

---
 src/fora/inventory_wrapper.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 67e776a..5447540 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -103,26 +103,31 @@ class GroupDeclaration:
     Duplicates are ignored.
     """
 
-def _snapshot(value: Any) -> Any:
+def _snapshot(value: Any, parents: tuple[int, ...] = ()) -> Any:
     """
     Returns a copy of the given value to compare it against later. Containers are copied recursively
     to notice modifications of nested values. Objects that are only equal to themselves aren't copied,
-    as they would always compare as modified.
+    as they would always compare as modified. Neither are references to a surrounding container.
 
     Parameters
     ----------
     value
         The value to create a snapshot of.
+    parents
+        The ids of the containers that surround this value.
 
     Returns
     -------
     Any
         The snapshot.
     """
+    if id(value) in parents:
+        return value
+    parents = parents + (id(value),)
     if isinstance(value, dict):
-        return {k: _snapshot(v) for k,v in value.items()}
+        return {k: _snapshot(v, parents) for k,v in value.items()}
     if isinstance(value, (list, tuple)):
-        items = [_snapshot(v) for v in value]
+        items = [_snapshot(v, parents) for v in value]
         return items if isinstance(value, list) else tuple(items)
     return value if type(value).__eq__ is object.__eq__ else copy(value)
 
@@ -803,8 +808,8 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
+            was_modified = attr not in variable_action_history or (not was_overwritten and variable_action_history[attr][-1].value != value)
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
             if initializer is None or was_overwritten or was_modified:
-- 
2.43.0


From 961d6fce0016dcd823b78bb8500f34635c9410dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 49/51] fix: the order of groups must not depend on the hash
 seed

---
 src/fora/inventory_wrapper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 5447540..cf99117 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -411,7 +411,7 @@ class InventoryWrapper(ModuleWrapper):
                 decl.name = self.extract_hostname(decl.url)
 
             # Ensure host is in "all" group
-            decl.groups = list(set(decl.groups) | set(["all"]))
+            decl.groups = list(dict.fromkeys([*decl.groups, "all"]))
 
             if decl.name in self._host_decls:
                 raise ValueError(f"Duplicate host '{str(decl.name)}' specified by '{host}'")
@@ -435,8 +435,8 @@ class InventoryWrapper(ModuleWrapper):
             for host in self._host_decls.values():
                 self.groups.extend(host.groups)
 
-            # Deduplicate
-            self.groups = list(set(self.groups))
+            # Deduplicate, but keep the order (it must not depend on the hash seed)
+            self.groups = list(dict.fromkeys(self.groups))
 
         # Unify declarations
         for group in self.groups:
@@ -454,8 +454,8 @@ class InventoryWrapper(ModuleWrapper):
                 raise ValueError(f"Duplicate group '{str(decl.name)}' specified by '{group}'")
 
             # Deduplicate before and after
-            decl.before = list(set(decl.before))
-            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else []))
+            decl.before = list(dict.fromkeys(decl.before))
+            decl.after = list(dict.fromkeys([*decl.after, *(["all"] if decl.name != "all" else [])]))
 
             self._group_decls[decl.name] = decl
 
@@ -502,7 +502,7 @@ class InventoryWrapper(ModuleWrapper):
         # Deduplicate `after`, clear `before`
         for group in self._group_decls.values():
             group.before = []
-            group.after = list(set(group.after))
+            group.after = list(dict.fromkeys(group.after))
 
         # Recalculate `before` from `after`
         for group in self._group_decls.values():
@@ -511,7 +511,7 @@ class InventoryWrapper(ModuleWrapper):
 
         # Deduplicate `before`
         for group in self._group_decls.values():
-            group.before = list(set(group.before))
+            group.before = list(dict.fromkeys(group.before))
 
     def _detect_self_dependencies(self) -> None:
         """
-- 
2.43.0


From 8cbc4f6fd349bb0687ae2ac1eb46439d1d77ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 50/51] fix: modify packages in the given order

---
 src/fora/operations/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 0b06217..45f8b8a 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -96,11 +96,13 @@ def generic_package(op: Operation,
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
         if present:
-            for p in set(packages) - installed:
-                install(p)
+            for p in dict.fromkeys(packages):
+                if p not in installed:
+                    install(p)
         else:
-            for p in installed:
-                uninstall(p)
+            for p in dict.fromkeys(packages):
+                if p in installed:
+                    uninstall(p)
 
     return op.success()
 
-- 
2.43.0


From fa650ab2871f48e497e358b8135cbaf23dfb98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 51/51] fix: run commands in relative working directories

---
 src/fora/connectors/tunnel_dispatcher.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 49d3a64..477d361 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -430,7 +430,6 @@ class PacketProcessRun(NamedTuple):
             result = subprocess.run(self.command,
                 **input_options,
                 **output_options,
-                cwd=self.cwd,
                 preexec_fn=child_preexec,
                 check=False)
         except subprocess.SubprocessError as e:
-- 
2.43.0

