From 58f29ed4e338eb36cef9fd65c98d1505dedb1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 01/73] fix: report damaged gzip data to the caller only, not
 as an unhandled rejection

---
 utilities/0_gzip.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utilities/0_gzip.ts b/utilities/0_gzip.ts
index c2ac868..2270373 100644
--- a/utilities/0_gzip.ts
+++ b/utilities/0_gzip.ts
@@ -30,8 +30,10 @@ export function gzip(buffer: Uint8Array): Promise<Uint8Array<ArrayBuffer>> {
 
 async function inner(buffer: Uint8Array, transformStream: GenericTransformStream): Promise<Uint8Array<ArrayBuffer>> {
   const writer = transformStream.writable.getWriter();
-  const result = toArrayBuffer(transformStream.readable);
-  await writer.write(buffer);
-  await writer.close();
-  return new Uint8Array(await result);
+  const [result] = await Promise.all([
+    toArrayBuffer(transformStream.readable),
+    writer.write(buffer),
+    writer.close(),
+  ]);
+  return new Uint8Array(result);
 }
-- 
2.43.0


From 7b863a078f7d2e7591dd07839a4b8383b0dc2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 02/73] fix: keep a leading byte order mark when decoding text

---
 utilities/0_text.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/0_text.ts b/utilities/0_text.ts
index 5d6c2ca..d00305e 100644
--- a/utilities/0_text.ts
+++ b/utilities/0_text.ts
@@ -19,7 +19,7 @@
  */
 
 const encoder = new TextEncoder();
-const decoder = new TextDecoder();
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 
 export function encodeText(decoded: string) {
   return encoder.encode(decoded);
-- 
2.43.0


From 32efe5311d86b3d97a326940faacc4f40887de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 03/73] fix: do not reserve memory for vector and container
 counts that the data does not back

---
 tl/1_tl_reader.ts | 7 +++++--
 tl/2_message.ts   | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/tl/1_tl_reader.ts b/tl/1_tl_reader.ts
index 07d6983..321bba2 100644
--- a/tl/1_tl_reader.ts
+++ b/tl/1_tl_reader.ts
@@ -274,9 +274,12 @@ export class TLReader {
       }
     }
     const size = this.readInt32();
-    const array = new Array<any>(size);
+    if (size < 0) {
+      throw new TLError(`Invalid vector size: ${size}`, this.#path);
+    }
+    const array = new Array<any>();
     for (let i = 0; i < size; ++i) {
-      array[i] = this.#readField(vectorType.type, schema);
+      array.push(this.#readField(vectorType.type, schema));
     }
     return array;
   }
diff --git a/tl/2_message.ts b/tl/2_message.ts
index c0ca621..7ebdcd6 100644
--- a/tl/2_message.ts
+++ b/tl/2_message.ts
@@ -18,6 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+import { TLError } from "../0_errors.ts";
 import { TLReader } from "./1_tl_reader.ts";
 import type { TLWriter } from "./1_tl_writer.ts";
 
@@ -85,9 +86,12 @@ function writeMsgContainer(writer: TLWriter, msgContainer: msg_container) {
 export function deserializeMsgContainer(buffer: Uint8Array): msg_container {
   const reader = new TLReader(buffer);
   const length = reader.readInt32();
-  const messages = new Array<message>(length);
+  if (length < 0) {
+    throw new TLError(`Invalid container length: ${length}`, []);
+  }
+  const messages = new Array<message>();
   for (let i = 0; i < length; i++) {
-    messages[i] = deserializeMessage(reader);
+    messages.push(deserializeMessage(reader));
   }
   return { _: "msg_container", messages };
 }
-- 
2.43.0


From 1503a01f02734783a731b89984d048ef5feacfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 04/73] fix: start a reopened SOCKS5 connection from a clean
 buffer on Node.js

---
 connection/1_connection_socks5.node.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index ad58be9..7e13e10 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -125,7 +125,7 @@ export class ConnectionSocks5 implements Connection {
       return;
     }
 
-    this.#isReady = false;
+    this.#cleanupSocket();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From 82b26e7c9b847a20974b70b62f63c9d351ce9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 05/73] fix: fail pending reads and drop old bytes when a TCP
 connection is reopened on Node.js

---
 connection/1_connection_tcp.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..23f9c1a 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,8 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From ad704253e3317a358227a705acb98929abdcfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 06/73] fix: fail queued reads of a closed fake TLS connection
 on Node.js instead of leaving them waiting

---
 connection/1_connection_tls.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..37c7369 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -255,6 +255,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected();
       while (this.#packetBuffer.length < p.byteLength) {
         await this.#readPacket();
       }
@@ -268,6 +269,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
     try {
+      this.#assertConnected();
       let offset = 0;
       while (true) {
         const packet = p.subarray(offset, offset + MAX_PACKET_LENGTH - HEADER_LENGTH);
-- 
2.43.0


From c4ff2c5cf3c5569ab62ae8ccc9e4aef54277f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 07/73] fix: do not let other entries break or enter the
 listings of web storages

---
 storage/1_utilities.ts                  | 9 +++++++++
 storage/2_storage_local_storage.node.ts | 4 ++--
 storage/2_storage_local_storage.ts      | 4 ++--
 storage/2_storage_session_storage.ts    | 4 ++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..9e8ca74 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -97,6 +97,15 @@ export function fromString<T>(string: string): T {
   }
 }
 
+/** Whether a string is an encoded key. Other strings, such as those of branches, might begin with the same storage prefix. */
+export function isEncodedKey(string: string): boolean {
+  try {
+    return string.startsWith(String(ValueType.Array)) && toString(fromString(string)) === string;
+  } catch {
+    return false;
+  }
+}
+
 type FixedBigInt = [typeof ValueType.BigInt, -1 | 1, number, ...number[]];
 
 function fixBigInt(value: bigint): FixedBigInt {
diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..f19cbff 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isEncodedKey, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix) && isEncodedKey(key.slice(this.prefix.length)))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..5481756 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isEncodedKey, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix) && isEncodedKey(key.slice(this.prefix.length)))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..c4ad608 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isEncodedKey, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -73,7 +73,7 @@ export class StorageSessionStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix) && isEncodedKey(key.slice(this.prefix.length)))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-- 
2.43.0


From 16a773e9d08a822d9e0cf7389d6c22e4d8e456e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 08/73] fix: keep prefix listings of IndexedDB from including
 keys that only share the beginning of a part

---
 storage/1_utilities.ts | 63 ++----------------------------------------
 1 file changed, 3 insertions(+), 60 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 9e8ca74..3008112 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -137,66 +137,9 @@ export function restoreKey(key: readonly IDBValidKey[]): StorageKeyPart[] {
   });
 }
 
-// Source: https://gist.github.com/inexorabletash/5462871
-// deno-lint-ignore no-explicit-any
-export function getPrefixKeyRange(prefix: any): IDBKeyRange {
-  // Ensure prefix is a valid key itself:
-  if (indexedDB.cmp(prefix, prefix) !== 0) throw new TypeError();
-
-  const upperKey = successor(prefix);
-  if (upperKey === undefined) return IDBKeyRange.lowerBound(prefix);
-  return IDBKeyRange.bound(prefix, upperKey, false, true);
-}
-const MAX_DATE_VALUE = 8640000000000000;
-const UPPER_BOUND = {
-  NUMBER: new Date(-MAX_DATE_VALUE),
-  DATE: "",
-  STRING: [],
-  ARRAY: undefined,
-};
-// deno-lint-ignore no-explicit-any
-function successor(key: any) {
-  if (typeof key === "number") {
-    if (key === Infinity) return UPPER_BOUND.NUMBER;
-    if (key === -Infinity) return -Number.MAX_VALUE;
-    if (key === 0) return Number.MIN_VALUE;
-    let epsilon = Math.abs(key);
-    while (key + epsilon / 2 !== key) epsilon = epsilon / 2;
-    return key + epsilon;
-  }
-
-  if (key instanceof Date) {
-    if (key.valueOf() + 1 > MAX_DATE_VALUE) return UPPER_BOUND.DATE;
-    return new Date(key.valueOf() + 1);
-  }
-
-  if (typeof key === "string") {
-    let len = key.length;
-    while (len > 0) {
-      const head = key.substring(0, len - 1),
-        tail = key.charCodeAt(len - 1);
-      if (tail !== 0xffff) return head + String.fromCharCode(tail + 1);
-      key = head;
-      --len;
-    }
-    return UPPER_BOUND.STRING;
-  }
-
-  if (Array.isArray(key)) {
-    key = key.slice(); // Operate on a copy.
-    let len = key.length;
-    while (len > 0) {
-      const tail = successor(key.pop());
-      if (tail !== undefined) {
-        key.push(tail);
-        return key;
-      }
-      --len;
-    }
-    return UPPER_BOUND.ARRAY;
-  }
-
-  throw new TypeError();
+/** The range of the keys that begin with the given parts. No key part sorts after an array that begins with an array. */
+export function getPrefixKeyRange(prefix: IDBValidKey[]): IDBKeyRange {
+  return IDBKeyRange.bound(prefix, [...prefix, [[]]]);
 }
 
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
-- 
2.43.0


From 4432105578883cefa116a20ec42b67ac9612c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 09/73] fix: keep newer values when a slow read, an eviction, a
 reset or a clear meets the storage cache

---
 client/0_storage_operations.ts | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..3ac4d54 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -736,13 +736,20 @@ class StorageMap<K extends StorageKeyPart[], V> {
     return this.#pendingUpdates.size;
   }
 
+  #epoch = 0;
   reset() {
     this.#pendingUpdates.clear();
     this.#cache.clear();
+    ++this.#epoch;
+  }
+
+  #peek(key: string) {
+    const value = this.#cache.get(key);
+    return value === undefined ? this.#pendingUpdates.get(key) : value;
   }
 
   getSync(key: K): V | null {
-    const value = this.#cache.get(toString(key));
+    const value = this.#peek(toString(key));
     if (value === undefined) {
       return null;
     } else {
@@ -751,15 +758,25 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   async clear() {
+    this.reset();
     await awaitablePooledMap(10, await this.#storage.getMany({ prefix: [this.#path] }), async ([key]) => await this.#storage.set(key, null));
+    this.#cache.clear();
+    ++this.#epoch;
   }
 
   async get(key: K): Promise<V | null> {
     const key_ = toString(key);
-    let value = this.#cache.get(key_);
+    let value = this.#peek(key_);
     if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
-      this.#cache.set(key_, value);
+      const epoch = this.#epoch;
+      const stored = await this.#storage.get<V>([this.#path, ...key]);
+      value = this.#peek(key_);
+      if (value === undefined) { // not set in the meantime
+        value = stored;
+        if (this.#epoch === epoch) {
+          this.#cache.set(key_, value);
+        }
+      }
     }
     return value;
   }
@@ -819,9 +836,13 @@ class StorageValue<T> {
 
   async get(): Promise<T | null> {
     if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+      const revision = this.#revision;
+      const value = await this.#storage.get<T>(this.#key);
+      if (this.#value === undefined && this.#revision === revision) { // not set in the meantime
+        this.#value = value;
+      }
     }
-    return this.#value;
+    return this.#value ?? null;
   }
 
   async commit() {
-- 
2.43.0


From 0999ddceee0e77b15e5446ad717b486c3cdfc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 10/73] fix: decode HTML character references above U+FFFF and
 with upper-case digits, and judge the text of a link by itself

---
 client/0_html.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index 8969bdd..0be5365 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -155,7 +155,7 @@ export function parseHtml(html_: string, isSecret?: boolean): [string, (MessageE
           try {
             url = new URL(text_).href;
           } catch {
-            if (!Array.from(text).some(isSpace)) {
+            if (!Array.from(text_).some(isSpace)) {
               try {
                 url = new URL(`http://${text_}`).href;
               } catch {
@@ -397,7 +397,7 @@ function decodeEntity(html: string[], i: number): [string, number] {
       code = parseInt(code_);
     }
     if (!isNaN(code) && code !== 0 && code < 0x10ffff && end - i < 10) {
-      text = String.fromCharCode(code);
+      text = String.fromCodePoint(code);
     } else {
       fallback = true;
     }
@@ -439,7 +439,7 @@ function isDigit(string: string) {
   return "0" <= string && string <= "9";
 }
 function isHex(string: string) {
-  return isDigit(string) || ("a" <= string && string <= "f");
+  return isDigit(string) || ("a" <= string && string <= "f") || ("A" <= string && string <= "F");
 }
 function isSpace(string: string) {
   return string === " " || string === "\t" || string === "\r" || string === "\n" || string === "\0" || string === "\v";
-- 
2.43.0


From bf4a044c865699d2087f28946c90ac06308ab486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 11/73] fix: give a Markdown code block without a language the
 pre type it has in HTML

---
 client/0_markdown.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_markdown.ts b/client/0_markdown.ts
index f4a057e..a23c1b2 100644
--- a/client/0_markdown.ts
+++ b/client/0_markdown.ts
@@ -231,7 +231,7 @@ export function parseMarkdown(text_: string, isSecret?: boolean): [string, (Mess
         case CODEPOINTS["`"]:
           if (text[i + 1] === CODEPOINTS["`"] && text[i + 2] === CODEPOINTS["`"]) {
             i += 3;
-            type = "code";
+            type = "pre";
             let languageEnd = i;
             while (text[languageEnd] !== undefined && !isWhitespace(text[languageEnd]) && text[languageEnd] !== CODEPOINTS["`"]) {
               languageEnd++;
-- 
2.43.0


From 7886938695441fa289ec2bbf83d34fa33bde109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 12/73] fix: leave the caller's entities untouched when a
 secret message is prepared

---
 client/3_secret_chat_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..0da5fda 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -168,6 +168,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   }
 
   static parseText(text: string, entities: SecretMessageEntity[], parseMode: ParseMode, isEmptyAllowed = false): [string, SecretMessageEntity[]] {
+    entities = entities.map((v) => ({ ...v }));
     switch (parseMode) {
       case null:
         break;
-- 
2.43.0


From 42d2226fbf7d403e61c1102ba8107e210ea54f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 13/73] fix: match update and message types that have no field
 of the same name

---
 client/3_filters.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/3_filters.ts b/client/3_filters.ts
index 96588c5..c607784 100644
--- a/client/3_filters.ts
+++ b/client/3_filters.ts
@@ -112,7 +112,7 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   let type = type_;
   if (other.length === 0 && type !== "update" && "update" in value && (value.update as { _: unknown })._ === type) {
     return true;
-  } else if (type !== "" && !(type in value)) {
+  } else if (type !== "" && (value as { type?: unknown }).type !== type) {
     return false;
   }
   if (type === "") {
@@ -131,8 +131,8 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   }
   const field = other[0];
   if (field) {
-    if (["message", "editedMessage", "scheduledMessage"].includes(type) && (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] !== field) {
-      return false;
+    if (["message", "editedMessage", "scheduledMessage", "secretMessage"].includes(type)) {
+      return (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] === field;
     } else if (!(field in (value as Record<symbol | number | string, object>)[type])) {
       return false;
     }
-- 
2.43.0


From 1305966c6b5099384fbca7976fea852bed0fb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 14/73] fix: take the whole first word after the prefix as the
 command

---
 client/4_context.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index 27f0402..8079ac9 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -83,7 +83,7 @@ const staticHas: StaticHas = {
           return false;
         }
       }
-      const command_ = cmd.split("@", 1)[0].split(prefix, 2)[1].toLowerCase();
+      const command_ = cmd.split("@", 1)[0].slice(prefix.length).toLowerCase();
       for (const command of commands_) {
         if (typeof command === "string" && (command.toLowerCase() === command_)) {
           return true;
-- 
2.43.0


From 4746190708e34cce725ca6a4e62cda2fe046b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 15/73] fix: give contexts of chosen inline results their
 sender

---
 client/4_context.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/4_context.ts b/client/4_context.ts
index 8079ac9..fc1aeb1 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -393,6 +393,8 @@ export class Context {
         return this.update.callbackQuery.from;
       case "inlineQuery":
         return this.update.inlineQuery.from;
+      case "chosenInlineResult":
+        return this.update.chosenInlineResult.from;
       case "chatMember":
         return this.update.chatMember.from;
       case "myChatMember":
-- 
2.43.0


From 5894178844cfb9dbaa59d3c60cc97616133e3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 16/73] fix: refuse longer moduli and unsafe server values
 before computing a password proof

---
 client/0_password.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index f5eddbc..5994b63 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -48,7 +48,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0x6F, 0x4F, 0xAD, 0xF0, 0x34, 0xB1, 0x04, 0x03, 0x11, 0x9C, 0xD8, 0xE3,
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
-  if (goodPrime.every((v, i) => v === primeBytes[i])) {
+  if (primeBytes.length === goodPrime.length && goodPrime.every((v, i) => v === primeBytes[i])) {
     if ([3, 4, 5, 7].includes(g)) {
       return true;
     }
@@ -136,6 +136,9 @@ export async function checkPassword(password_: string, ap: Api.account_Password)
 
   // g_b := srp_B
   const gB = intFromBytes(srpB, { byteOrder: "big", isSigned: false });
+  if (!isGoodModExpFirst(gB, p)) {
+    throw new TypeError("Received unsafe srpB.");
+  }
 
   // k := H(p | g)
   const k = intFromBytes(await h(concat([pad(p), pad(g)])), { byteOrder: "big", isSigned: false });
-- 
2.43.0


From f0935aa94c83dcdef741fa1e5dbdb7afcc9144ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 17/73] fix: report the bytes of WebSocket connections to the
 network statistics

---
 connection/1_connection_web_socket.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection/1_connection_web_socket.ts b/connection/1_connection_web_socket.ts
index 9c7af56..c586954 100644
--- a/connection/1_connection_web_socket.ts
+++ b/connection/1_connection_web_socket.ts
@@ -34,6 +34,7 @@ export class ConnectionWebSocket implements Connection {
   #buffer = new ByteQueue();
   #nextResolve: [number, { resolve: () => void; reject: (err: unknown) => void }] | null = null;
   stateChangeHandler?: Connection["stateChangeHandler"];
+  callback?: Connection["callback"];
 
   constructor(url: string) {
     this.#url = url;
@@ -68,6 +69,7 @@ export class ConnectionWebSocket implements Connection {
           if (this.#webSocket !== webSocket) return;
 
           this.#buffer.push(data);
+          this.callback?.read(data.byteLength);
 
           if (
             this.#nextResolve !== null && this.#buffer.length >= this.#nextResolve[0]
@@ -136,6 +138,7 @@ export class ConnectionWebSocket implements Connection {
     try {
       this.#assertConnected();
       this.#webSocket!.send(p);
+      this.callback?.write(p.byteLength);
     } finally {
       unlock();
     }
-- 
2.43.0


From 32b4eb503ae574e8022f63381372b9c9d5916295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 18/73] fix: do not leave the failure of a request that is
 still being sent unhandled

---
 client/2_client_encrypted.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..9608a95 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -339,6 +339,8 @@ export class ClientEncrypted extends ClientAbstract {
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
+    // might reject while still being sent
+    sentRequest.promiseWithResolvers.promise.catch(() => {});
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
       this.#sentRequests.set(messageId, sentRequest);
-- 
2.43.0


From 661ac387597e59542497739be4af4d7881424802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 19/73] fix: keep every request through the invalidation of a
 session

Requests being sent or resent while a session is reconnecting on its own no
longer fail, identifiers of the old session no longer affect the new one, an
invalidation whose reconnection fails is tried again, and disconnecting
meanwhile is respected.
---
 session/2_session_encrypted.ts | 89 +++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..a09cda8 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -62,7 +62,7 @@ export class SessionEncrypted extends Session implements Session {
 
   #authKey = new Uint8Array();
   #authKeyId = 0n;
-  #isInvalidating = false;
+  #invalidation: { controller: AbortController; promise: Promise<void> } | null = null;
 
   #sentMessages = new Set<bigint>();
   #pendingMessages = new Array<PendingMessage | undefined>();
@@ -100,7 +100,7 @@ export class SessionEncrypted extends Session implements Session {
   }
 
   override async connect(): Promise<void> {
-    if (!this.isConnected && !this.#isInvalidating) {
+    if (!this.isConnected && this.#invalidation === null) {
       this.#rejectAllPending(new ConnectionError("The connection was closed."));
     }
     await super.connect();
@@ -114,17 +114,27 @@ export class SessionEncrypted extends Session implements Session {
     this.#awakeSendLoop?.();
   }
 
+  /** Whether the session was explicitly disconnected. It is not while it is being invalidated. */
+  override get isDisconnected(): boolean {
+    return super.isDisconnected && this.#invalidation === null;
+  }
+
   override disconnect(): void {
+    this.#invalidation?.controller.abort();
+    this.#invalidation = null;
+    this.#disconnect();
+    this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
+  }
+
+  #disconnect() {
     super.disconnect();
     this.state.reset();
     this.#id = getRandomId();
     this.#receiveLoop.abort();
     this.#sendLoop.abort();
     this.#pingLoop.abort();
+    this.#pendingAcks.clear();
     this.#awakeSendLoop?.();
-    if (!this.#isInvalidating) {
-      this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
-    }
   }
 
   #assertNotDisconnected() {
@@ -135,19 +145,33 @@ export class SessionEncrypted extends Session implements Session {
 
   async #invalidateSession(reason: string) {
     this.#L.debug("invalidating session because of", reason);
-    this.#id = getRandomId();
-    this.state.reset();
-    this.#isInvalidating = true;
-    try {
-      this.disconnect();
-      await this.connect();
-    } catch (err) {
-      this.#rejectAllPending(err);
-      throw err;
-    } finally {
-      this.#isInvalidating = false;
-    }
+    const controller = new AbortController();
+    const promise = this.#reconnect(controller.signal);
+    this.#invalidation = { controller, promise };
+    this.#disconnect();
+    // identifiers might repeat in the new session
     this.#rejectAllPending(new SessionError("The session was invalidated."));
+    await promise;
+  }
+
+  async #reconnect(signal: AbortSignal) {
+    await Promise.resolve();
+    while (!signal.aborted) {
+      try {
+        await this.connect();
+        break;
+      } catch (err) {
+        this.#L.error("failed to reconnect:", err);
+        try {
+          await delay(3 * SECOND, { signal });
+        } catch {
+          //
+        }
+      }
+    }
+    if (!signal.aborted) {
+      this.#invalidation = null;
+    }
   }
 
   #rejectAllPending(reason: unknown) {
@@ -213,6 +237,7 @@ export class SessionEncrypted extends Session implements Session {
   }
 
   async send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void) {
+    await this.#invalidation?.promise;
     if (!this.isDisconnected && !this.isConnected) {
       await super.waitUntilConnected();
     }
@@ -352,6 +377,13 @@ export class SessionEncrypted extends Session implements Session {
     let message: message;
     let unregister: (() => void) | undefined;
 
+    const sessionId = this.#id;
+    const assertSameSession = () => {
+      if (this.#id !== sessionId) {
+        throw new SessionError("The session was invalidated.");
+      }
+    };
+
     try {
       msg_id = this.state.nextMessageId();
       unregister = pendingMessage.onMessageId(msg_id);
@@ -415,8 +447,14 @@ export class SessionEncrypted extends Session implements Session {
         this.#LsendLoop.debug("container msg_id =", message.msg_id, "seqno =", message.seqno);
       }
 
+      assertSameSession();
       const payload = await this.#encryptMessage(message);
+      assertSameSession();
+      if (!(message.body instanceof Uint8Array)) {
+        this.#containers.set(message.msg_id, message.body.messages.map((v) => v.msg_id));
+      }
       await this.transport.transport.send(payload);
+      assertSameSession();
     } catch (err) {
       pendingMessage.promiseWithResolvers.reject(err);
       unregister?.();
@@ -428,7 +466,6 @@ export class SessionEncrypted extends Session implements Session {
     if (!(message.body instanceof Uint8Array)) {
       const msg_ids = message.body.messages.map((v) => v.msg_id);
       this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...msg_ids);
-      this.#containers.set(message.msg_id, msg_ids);
     } else {
       this.#LsendLoop.debug("sent message", message.msg_id);
     }
@@ -459,9 +496,9 @@ export class SessionEncrypted extends Session implements Session {
     }
     try {
       if (message.body instanceof Uint8Array) {
-        await this.#onMessage(message.msg_id, message.body, null);
+        await this.#onMessage(message.msg_id, message.body, null, this.#id);
       } else {
-        await this.#onMessageContainer(message.msg_id, message.body);
+        await this.#onMessageContainer(message.msg_id, message.body, this.#id);
       }
     } catch (err) {
       this.#LreceiveLoop.error("failed to handle message:", err);
@@ -469,7 +506,7 @@ export class SessionEncrypted extends Session implements Session {
   }
 
   //// RECEIVE LOOP HANDLERS ////
-  async #onMessage(msgId: bigint, body: Uint8Array, containerId: bigint | null) {
+  async #onMessage(msgId: bigint, body: Uint8Array, containerId: bigint | null, sessionId: bigint) {
     this.#LreceiveLoop.debug("received message with ID", msgId, "and size", body.byteLength, "inside", ...(containerId === null ? ["no container"] : ["container", containerId]));
     const logger = this.#LreceiveLoop.branch(String(msgId));
     let reader = new TLReader(body);
@@ -479,6 +516,10 @@ export class SessionEncrypted extends Session implements Session {
       reader = new TLReader(await gunzip(reader.readBytes()));
       id = reader.readInt32(false);
     }
+    if (this.#id !== sessionId && (id === RPC_RESULT || Mtproto.schema.identifierToName[id])) {
+      logger.debug("ignoring as the session was invalidated");
+      return;
+    }
     if (id === RPC_RESULT) {
       await this.#onRpcResult(msgId, reader.buffer, logger);
       return;
@@ -601,13 +642,13 @@ export class SessionEncrypted extends Session implements Session {
     this.#toAcknowledge.push(msgId);
   }
 
-  async #onMessageContainer(msgId: bigint, msgContainer: msg_container) {
+  async #onMessageContainer(msgId: bigint, msgContainer: msg_container, sessionId: bigint) {
     this.#LreceiveLoop.debug("received container with ID", msgId, "and", msgContainer.messages.length, "message(s)");
     for (const message of msgContainer.messages) {
       if (message.body instanceof Uint8Array) {
-        await this.#onMessage(message.msg_id, message.body, msgId);
+        await this.#onMessage(message.msg_id, message.body, msgId, sessionId);
       } else {
-        await this.#onMessageContainer(msgId, message.body);
+        await this.#onMessageContainer(msgId, message.body, sessionId);
       }
     }
   }
-- 
2.43.0


From 31afa50c26403ad2474233ed0ef3ee6bd1218785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:51 +0000
Subject: [PATCH 20/73] fix: do not take the sequence number of a message from
 another session

A message being compressed while the session changed consumed the first
sequence number of the new session without being sent in it.
---
 session/2_session_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index a09cda8..278551b 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -415,6 +415,7 @@ export class SessionEncrypted extends Session implements Session {
         }
       }
 
+      assertSameSession();
       const seqno = this.state.nextSeqNo(true);
       message = {
         _: "message",
@@ -447,7 +448,6 @@ export class SessionEncrypted extends Session implements Session {
         this.#LsendLoop.debug("container msg_id =", message.msg_id, "seqno =", message.seqno);
       }
 
-      assertSameSession();
       const payload = await this.#encryptMessage(message);
       assertSameSession();
       if (!(message.body instanceof Uint8Array)) {
-- 
2.43.0


From 564fbdee7deee254b406b25d95c3c8b92136cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 21/73] fix: close lost connections and ignore failures of
 replaced ones

A TCP, SOCKS5 or TLS connection that ended was never closed, a late failure of
a closed connection marked the one opened after it as not connected, and
closing a connection was not reported when nothing was being read.
---
 connection/1_connection_socks5.ts | 29 ++++++++++++++++++++++------
 connection/1_connection_tcp.ts    | 31 ++++++++++++++++++++++--------
 connection/1_connection_tls.ts    | 32 +++++++++++++++++++++++--------
 3 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index 8ed0de0..8fcb26f 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -205,15 +205,31 @@ export class ConnectionSocks5 implements Connection {
     }
   }
 
+  #onFailure(connection?: Deno.Conn) {
+    if (this.#connection !== undefined && this.#connection !== connection) {
+      // another one was opened meanwhile
+      return;
+    }
+    this.#canRead = this.#canWrite = false;
+    this.#connection = undefined;
+    try {
+      connection?.close();
+    } catch {
+      // already closed
+    }
+    this.stateChangeHandler?.(false);
+  }
+
   async read(p: Uint8Array) {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
+    const connection = this.#connection;
 
     try {
-      await this.#readFromConnection(this.#connection!, p);
+      this.#assertConnected();
+      await this.#readFromConnection(connection!, p);
     } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
+      this.#onFailure(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
@@ -223,12 +239,12 @@ export class ConnectionSocks5 implements Connection {
   async write(p: Uint8Array) {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
+    const connection = this.#connection;
     try {
       this.#assertConnected();
-      await this.#writeToConnection(this.#connection!, p);
+      await this.#writeToConnection(connection!, p);
     } catch {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
+      this.#onFailure(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
@@ -240,5 +256,6 @@ export class ConnectionSocks5 implements Connection {
     this.#connection!.close();
     this.#canRead = this.#canWrite = false;
     this.#connection = undefined;
+    this.stateChangeHandler?.(false);
   }
 }
diff --git a/connection/1_connection_tcp.ts b/connection/1_connection_tcp.ts
index 33c2316..ed58f3e 100644
--- a/connection/1_connection_tcp.ts
+++ b/connection/1_connection_tcp.ts
@@ -68,17 +68,32 @@ export class ConnectionTCP implements Connection {
     this.#connection = connection;
   }
 
+  #onFailure(connection?: Deno.Conn) {
+    if (this.#connection !== undefined && this.#connection !== connection) {
+      // another one was opened meanwhile
+      return;
+    }
+    this.#canRead = this.#canWrite = false;
+    this.#connection = undefined;
+    try {
+      connection?.close();
+    } catch {
+      // already closed
+    }
+    this.stateChangeHandler?.(false);
+  }
+
   async read(p: Uint8Array) {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
+    const connection = this.#connection;
     let offset = 0;
 
     try {
+      this.#assertConnected();
       do {
-        const read = await this.#connection!.read(p.subarray(offset));
+        const read = await connection!.read(p.subarray(offset));
         if (read === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
           throw new ConnectionError("The connection was closed.");
         }
 
@@ -86,8 +101,7 @@ export class ConnectionTCP implements Connection {
         offset += read;
       } while (offset < p.byteLength);
     } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
+      this.#onFailure(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
@@ -99,15 +113,15 @@ export class ConnectionTCP implements Connection {
     const unlock = await this.#wMutex.lock();
     try {
       this.#assertConnected();
+      const connection = this.#connection;
       let written = 0;
       while (written < p.byteLength) {
         try {
-          const wrote = await this.#connection!.write(p.subarray(written));
+          const wrote = await connection!.write(p.subarray(written));
           this.callback?.write(wrote);
           written += wrote;
         } catch {
-          this.#canWrite = false;
-          this.stateChangeHandler?.(false);
+          this.#onFailure(connection);
           throw new ConnectionError("The connection was closed.");
         }
       }
@@ -121,5 +135,6 @@ export class ConnectionTCP implements Connection {
     this.#connection!.close();
     this.#canRead = this.#canWrite = false;
     this.#connection = undefined;
+    this.stateChangeHandler?.(false);
   }
 }
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index fd66714..0f72af4 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -61,14 +61,30 @@ export class ConnectionTLS implements Connection {
     }
   }
 
+  #onFailure(connection?: Deno.Conn) {
+    if (this.#connection !== undefined && this.#connection !== connection) {
+      // another one was opened meanwhile
+      return;
+    }
+    this.#canRead = this.#canWrite = false;
+    this.#isFirstWrite = true;
+    this.#buffer.clear();
+    this.#connection = undefined;
+    try {
+      connection?.close();
+    } catch {
+      // already closed
+    }
+    this.stateChangeHandler?.(false);
+  }
+
   async #read(array: Uint8Array) {
+    const connection = this.#connection;
     let offset = 0;
     try {
       while (offset < array.byteLength) {
-        const n = await this.#connection!.read(array.subarray(offset));
+        const n = await connection!.read(array.subarray(offset));
         if (n === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
           throw new ConnectionError("The connection is not open.");
         }
         if (n <= 0) {
@@ -78,8 +94,7 @@ export class ConnectionTLS implements Connection {
         offset += n;
       }
     } catch (err) {
-      this.stateChangeHandler?.(false);
-      this.#canRead = false;
+      this.#onFailure(connection);
       throw err;
     }
   }
@@ -191,12 +206,12 @@ export class ConnectionTLS implements Connection {
       this.#isFirstWrite = false;
       data = concat([new Uint8Array([0x14, 0x03, 0x03, 0x00, 0x01, 0x01]), data]);
     }
+    const connection = this.#connection;
     try {
-      await writeAll(this.#connection!, data);
+      await writeAll(connection!, data);
       this.callback?.write(data.byteLength);
     } catch (err) {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
+      this.#onFailure(connection);
       throw err;
     }
   }
@@ -240,5 +255,6 @@ export class ConnectionTLS implements Connection {
     this.#isFirstWrite = true;
     this.#buffer.clear();
     this.#connection = undefined;
+    this.stateChangeHandler?.(false);
   }
 }
-- 
2.43.0


From e35127f2c183df8722f1b68c985e21fa3d4f01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 22/73] fix: stay disconnected when disconnected while
 connecting

Disconnecting during a connection attempt, including a reconnection and the
creation of a key, left the client connected afterwards, and connecting again
returned the outcome of the abandoned attempt.
---
 client/2_client_encrypted.ts   | 54 +++++++++++++++++++++++++++++-----
 session/1_session.ts           | 12 ++++++++
 session/2_session_encrypted.ts |  3 ++
 3 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 9608a95..b8a8257 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -19,7 +19,7 @@
  */
 
 import { concat, delay, ige256Encrypt, SECOND } from "../0_deps.ts";
-import { drop, fromUnixTimestamp, getLogger, getRandomId, intFromBytes, type Logger, type MaybePromise, mod, sha1, toUnixTimestamp } from "../1_utilities.ts";
+import { drop, fromUnixTimestamp, getLogger, getRandomId, intFromBytes, type Logger, type MaybePromise, mod, Mutex, sha1, toUnixTimestamp } from "../1_utilities.ts";
 import { Api, type message, Mtproto, TLWriter, writeMessage, X } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
 import { APP_VERSION, DEVICE_MODEL, LANG_CODE, LANG_PACK, SYSTEM_LANG_CODE, SYSTEM_VERSION, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
@@ -134,17 +134,45 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   #connectPromise?: Promise<void>;
+  #connectMutex = new Mutex();
   override connect(): Promise<void> {
-    return this.#connectPromise ??= this.#connect().finally(() => this.#connectPromise = undefined);
+    if (this.#connectPromise !== undefined) {
+      return this.#connectPromise;
+    }
+    const promise = this.#connect().finally(() => {
+      if (this.#connectPromise === promise) {
+        this.#connectPromise = undefined;
+      }
+    });
+    return this.#connectPromise = promise;
+  }
+
+  #disconnectCount = 0;
+  #assertNotDisconnected(disconnectCount: number) {
+    if (this.#disconnectCount !== disconnectCount) {
+      throw new ConnectionError("The connection was disconnected.");
+    }
   }
 
   async #connect() {
+    const disconnectCount = this.#disconnectCount;
+    const unlock = await this.#connectMutex.lock();
+    try {
+      this.#assertNotDisconnected(disconnectCount);
+      await this.#connectInner(disconnectCount);
+    } finally {
+      unlock();
+    }
+  }
+
+  async #connectInner(disconnectCount: number) {
     if (!this.authKey.byteLength) {
-      await this.#createAuthKey();
+      await this.#createAuthKey(disconnectCount);
     } else if (this.#isPerfectForwardSecrecyEnabled) {
       this.#L.debug("creating temporary auth key");
-      await this.#createAuthKeyInner(true);
+      await this.#createAuthKeyInner(true, disconnectCount);
     }
+    this.#assertNotDisconnected(disconnectCount);
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
@@ -205,6 +233,11 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   override disconnect() {
+    ++this.#disconnectCount;
+    this.#connectPromise = undefined;
+    for (const plain of this.#plainClients) {
+      plain.disconnect();
+    }
     super.disconnect();
     this.#temporaryAuthKeyRefreshLoop.abort();
     this.lastRequest = undefined;
@@ -215,18 +248,21 @@ export class ClientEncrypted extends ClientAbstract {
     this.#sentRequests.clear();
   }
 
+  #plainClients = new Set<ClientPlain>();
   #createAuthKeyPromise?: Promise<unknown>;
-  #createAuthKey() {
-    return this.#createAuthKeyPromise ??= (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false), this.#createAuthKeyInner(true)]) : this.#createAuthKeyInner(false)).finally(() => {
+  #createAuthKey(disconnectCount: number) {
+    return this.#createAuthKeyPromise ??= (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false, disconnectCount), this.#createAuthKeyInner(true, disconnectCount)]) : this.#createAuthKeyInner(false, disconnectCount)).finally(() => {
       this.#createAuthKeyPromise = undefined;
     });
   }
-  async #createAuthKeyInner(isTemporary: boolean) {
+  async #createAuthKeyInner(isTemporary: boolean, disconnectCount: number) {
     let lastErr: unknown;
     let errored = false;
     const plain = new ClientPlain(this.#dc, this.#params);
+    this.#plainClients.add(plain);
     for (let i = 0; i < ClientEncrypted.#AUTH_KEY_CREATION_MAX_TRIES; ++i) {
       try {
+        this.#assertNotDisconnected(disconnectCount);
         await plain.connect();
         const [authKey, serverSalt] = await plain.createAuthKey(isTemporary);
         if (isTemporary) {
@@ -247,10 +283,14 @@ export class ClientEncrypted extends ClientAbstract {
         errored = true;
         lastErr = err;
         this.#L.error("failed to create auth key:", err);
+        if (this.#disconnectCount !== disconnectCount) {
+          break;
+        }
       } finally {
         plain.disconnect();
       }
     }
+    this.#plainClients.delete(plain);
     if (errored) {
       throw lastErr;
     }
diff --git a/session/1_session.ts b/session/1_session.ts
index 9381bac..cf0980e 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -19,6 +19,7 @@
  */
 
 import { delay, SECOND } from "../0_deps.ts";
+import { ConnectionError } from "../0_errors.ts";
 import { drop, getLogger, type Logger, Mutex } from "../1_utilities.ts";
 import type { Connection, ConnectionCallback } from "../2_connection.ts";
 import { type DC, type TransportProvider, transportProviderTcp, transportProviderWebSocket } from "../3_transport.ts";
@@ -135,17 +136,27 @@ export abstract class Session {
     return this.transport.connection.isConnected;
   }
 
+  #disconnectCount = 0;
   #connectMutex = new Mutex();
   async connect() {
+    const disconnectCount = this.#disconnectCount;
+    const assertNotDisconnected = () => {
+      if (this.#disconnectCount !== disconnectCount) {
+        throw new ConnectionError("The connection was disconnected.");
+      }
+    };
     const unlock = await this.#connectMutex.lock();
     try {
+      assertNotDisconnected();
       if (this.isConnected) {
         this.#resolveConnectionStateChange();
         return;
       }
       await this.transport.connection.open();
       try {
+        assertNotDisconnected();
         await this.transport.transport.initialize();
+        assertNotDisconnected();
       } catch (err) {
         if (this.transport.connection.isConnected) {
           try {
@@ -182,6 +193,7 @@ export abstract class Session {
   }
 
   disconnect() {
+    ++this.#disconnectCount;
     this.#isDisconnected = true;
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 278551b..ccaf38e 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -108,6 +108,9 @@ export class SessionEncrypted extends Session implements Session {
       await initTgCrypto();
       SessionEncrypted.#IS_TGCRYPTO_INITIALIZED = true;
     }
+    if (!this.isConnected) {
+      return;
+    }
     this.#receiveLoop.start();
     this.#sendLoop.start();
     this.#pingLoop.start();
-- 
2.43.0


From d59bfd3c4c05d6770d3e6125d8cc286f3f684ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 23/73] fix: keep pinging when the clock is set back during a
 ping

---
 session/2_session_encrypted.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index ccaf38e..8f5496f 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -676,7 +676,8 @@ export class SessionEncrypted extends Session implements Session {
       await this.#sendPingDelayDisconnect(this.#pingInterval / SECOND + 15);
       this.#LpingLoop.debug("received pong");
     } finally {
-      this.#timeElapsed = Date.now() - then;
+      // the clock might have been set meanwhile
+      this.#timeElapsed = Math.max(0, Date.now() - then);
       this.#LpingLoop.debug(`took ${this.#timeElapsed}`);
     }
     signal.throwIfAborted();
-- 
2.43.0


From 51443a3b7f41aca72703eff2fceac470b274276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 24/73] fix: validate the server's answers when creating an
 authorization key

---
 client/1_client_plain.ts | 84 +++++++++++++++++++++++++++++++++-------
 utilities/1_math.ts      | 38 +++++++++++++++++-
 2 files changed, 108 insertions(+), 14 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..43c37a6 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -18,18 +18,52 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { assert, assertEquals, concat, ige256Decrypt, ige256Encrypt, unreachable } from "../0_deps.ts";
-import { factorize, getLogger, getRandomInt, intFromBytes, intToBytes, modExp, rsaPad, sha1 } from "../1_utilities.ts";
-import { Mtproto } from "../2_tl.ts";
+import { assert, assertEquals, concat, ige256Decrypt, ige256Encrypt } from "../0_deps.ts";
+import { factorize, getLogger, getRandomInt, intFromBytes, intToBytes, isProbablePrime, mod, modExp, rsaPad, sha1 } from "../1_utilities.ts";
+import { Mtproto, TLReader } from "../2_tl.ts";
 import { type DC, getDcId } from "../3_transport.ts";
 import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { PublicKeyError } from "../4_errors.ts";
 import { type SessionParams, SessionPlain } from "../4_session.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
+import { isSafePrime } from "./0_password.ts";
 
 const L = getLogger("ClientPlain");
 const LcreateAuthKey = L.branch("createAuthKey");
 
+// https://core.telegram.org/mtproto/auth_key#presenting-proof-of-work-server-authentication
+function isGoodGenerator(g: number, prime: bigint) {
+  switch (g) {
+    case 2:
+      return mod(prime, 8n) === 7n;
+    case 3:
+      return mod(prime, 3n) === 2n;
+    case 4:
+      return true;
+    case 5:
+      return [1n, 4n].includes(mod(prime, 5n));
+    case 6:
+      return [19n, 23n].includes(mod(prime, 24n));
+    case 7:
+      return [3n, 5n, 6n].includes(mod(prime, 7n));
+    default:
+      return false;
+  }
+}
+
+function isGoodPrime(primeBytes: Uint8Array, g: number) {
+  if (isSafePrime(primeBytes, g)) {
+    return true;
+  }
+  const prime = intFromBytes(primeBytes, { byteOrder: "big", isSigned: false });
+  return prime >> 2047n === 1n && isGoodGenerator(g, prime) && isProbablePrime((prime - 1n) / 2n) && isProbablePrime(prime);
+}
+
+const SAFETY_RANGE = 1n << (2048n - 64n);
+function isInSafetyRange(value: bigint, prime: bigint) {
+  return value >= SAFETY_RANGE && value <= prime - SAFETY_RANGE;
+}
+
 export interface ClientPlainParams extends SessionParams {
   /** MTProto public keys to use in the `[keyId, [key, exponent]][]` format. Don't set this unless you know what you are doing. Defaults to Telegram servers' public keys. */
   publicKeys?: PublicKeys;
@@ -57,21 +91,24 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     LcreateAuthKey.debug(`${isTemporary ? "temporary " : ""}auth key creation started`);
 
     let resPq: Mtproto.resPQ | null = null;
+    let lastErr: unknown;
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const maybeResPq = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", maybeResPq));
+        assertEquals(maybeResPq.nonce, nonce);
+        resPq = maybeResPq;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
+        lastErr = err;
         LcreateAuthKey.debug("req_pq_multi error:", err);
       }
     }
     if (!resPq) {
-      unreachable();
+      throw lastErr;
     }
 
     const pq_ = intFromBytes(resPq.pq, { byteOrder: "big", isSigned: false });
@@ -141,6 +178,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -154,13 +193,27 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const tmpAesIv = concat([sha1ServerNonceNewNonce.subarray(12, 20), sha1NewNonce, newNonce_.subarray(0, 4)]);
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
-    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answer = answerWithHash.slice(20);
+    const answerReader = new TLReader(answer);
+    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerReader);
+    const paddingLength = answerReader.buffer.byteLength;
+    assert(paddingLength < 16);
+    assertEquals(await sha1(answer.slice(0, answer.byteLength - paddingLength)), answerWithHash.slice(0, 20));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
 
-    const b = getRandomInt(256, false);
-    const gB = modExp(BigInt(g), b, dhPrime);
+    assert(isGoodPrime(dhPrime_, g));
+    assert(isInSafetyRange(gA, dhPrime));
+
+    let b: bigint;
+    let gB: bigint;
+    do {
+      b = getRandomInt(256, false);
+      gB = modExp(BigInt(g), b, dhPrime);
+    } while (!isInSafetyRange(gB, dhPrime));
 
     const data = Mtproto.serializeObject({
       _: "client_DH_inner_data",
@@ -185,13 +238,18 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
     LcreateAuthKey.debug("got dh_gen_ok");
 
-    const serverNonceSlice = serverNonce_.subarray(0, 8);
-    const salt = newNonce_.subarray(0, 0 + 8).map((v, i) => v ^ serverNonceSlice[i]);
-
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
+    const authKeyAuxHash = (await sha1(authKey)).slice(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).slice(4, 20);
+    assertEquals(intToBytes(dhGenOk.new_nonce_hash1, 16), newNonceHash1);
+
+    const serverNonceSlice = serverNonce_.subarray(0, 8);
+    const salt = newNonce_.subarray(0, 0 + 8).map((v, i) => v ^ serverNonceSlice[i]);
 
     LcreateAuthKey.debug("auth key created");
 
diff --git a/utilities/1_math.ts b/utilities/1_math.ts
index 498c6c5..1afc50c 100644
--- a/utilities/1_math.ts
+++ b/utilities/1_math.ts
@@ -19,7 +19,7 @@
  */
 
 import { unreachable } from "../0_deps.ts";
-import { gcd, getRandomId, mod } from "./0_int.ts";
+import { gcd, getRandomId, getRandomInt, mod, modExp } from "./0_int.ts";
 
 function getRandomNumberInRange(min: number, max: number) {
   return Math.floor(Math.random() * (max - min) + min);
@@ -82,3 +82,39 @@ export function factorize(pq: bigint): [bigint, bigint] {
 
   unreachable();
 }
+
+/** Tells whether an integer is a prime with the Miller-Rabin primality test. */
+export function isProbablePrime(n: bigint, rounds = 20): boolean {
+  for (const prime of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) {
+    if (n % prime === 0n) {
+      return n === prime;
+    }
+  }
+  if (n < 2n) {
+    return false;
+  }
+
+  let d = n - 1n;
+  let r = 0;
+  while ((d & 1n) === 0n) {
+    d >>= 1n;
+    ++r;
+  }
+
+  const byteLength = Math.ceil(n.toString(16).length / 2) + 8;
+  witness: for (let i = 0; i < rounds; ++i) {
+    const a = getRandomInt(byteLength, false) % (n - 3n) + 2n;
+    let x = modExp(a, d, n);
+    if (x === 1n || x === n - 1n) {
+      continue;
+    }
+    for (let j = 1; j < r; ++j) {
+      x = x * x % n;
+      if (x === n - 1n) {
+        continue witness;
+      }
+    }
+    return false;
+  }
+  return true;
+}
-- 
2.43.0


From f51ecdd0cc659acd64bb19db03868735aa3f4a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 25/73] fix: bind temporary keys reliably and renew them in
 time

The binding message was made for a previewed message identifier and became
invalid whenever it was sent again or the clock was corrected, so that
connecting failed. Reports of missing keys were handled by awaiting a new
connection in the receive loop the connection needs, keys could be renewed
after their expiry, and a failed renewal was not retried.
---
 client/2_client_encrypted.ts   | 185 ++++++++++++++++++++++-----------
 session/1_session.ts           |   2 +-
 session/2_session_encrypted.ts |  14 ++-
 3 files changed, 136 insertions(+), 65 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index b8a8257..82d0115 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -19,12 +19,12 @@
  */
 
 import { concat, delay, ige256Encrypt, SECOND } from "../0_deps.ts";
-import { drop, fromUnixTimestamp, getLogger, getRandomId, intFromBytes, type Logger, type MaybePromise, mod, Mutex, sha1, toUnixTimestamp } from "../1_utilities.ts";
+import { drop, getLogger, getRandomId, intFromBytes, type Logger, type MaybePromise, mod, Mutex, sha1, toUnixTimestamp } from "../1_utilities.ts";
 import { Api, type message, Mtproto, TLWriter, writeMessage, X } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
 import { APP_VERSION, DEVICE_MODEL, LANG_CODE, LANG_PACK, SYSTEM_LANG_CODE, SYSTEM_VERSION, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { ConnectionError, ConnectionNotInited, constructTelegramError, InputError, RetryError, type TransportError } from "../4_errors.ts";
-import { SessionEncrypted, SessionError } from "../4_session.ts";
+import { type MessageBody, SessionEncrypted, SessionError } from "../4_session.ts";
 import { AbortableLoop } from "./0_abortable_loop.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
 import { isMediaFunction, repr } from "./0_utilities.ts";
@@ -33,7 +33,7 @@ import { ClientPlain, type ClientPlainParams } from "./1_client_plain.ts";
 // global ClientEncrypted ID counter for logs
 let id = 0;
 
-type SentRequest = { call: Api.AnyFunction | Mtproto.ping; promiseWithResolvers: PromiseWithResolvers<Api.DeserializedType | Mtproto.DeserializedType> };
+type SentRequest = { call: Api.AnyFunction | Mtproto.ping; getBody?: (messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>; promiseWithResolvers: PromiseWithResolvers<Api.DeserializedType | Mtproto.DeserializedType> };
 
 export interface ClientEncryptedParams extends ClientPlainParams {
   /** The app_version parameter to be passed to initConnection. It is recommended that this parameter is changed if users are authorized. Defaults to _MTKruto_. */
@@ -63,6 +63,7 @@ export interface ClientEncryptedHandlers {
 export class ClientEncrypted extends ClientAbstract {
   static #SEND_MAX_TRIES = 10;
   static #AUTH_KEY_CREATION_MAX_TRIES = 10;
+  static #AUTH_KEY_BINDING_MAX_TRIES = 10;
 
   handlers: ClientEncryptedHandlers = {};
 
@@ -166,60 +167,107 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async #connectInner(disconnectCount: number) {
-    if (!this.authKey.byteLength) {
-      await this.#createAuthKey(disconnectCount);
-    } else if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#L.debug("creating temporary auth key");
-      await this.#createAuthKeyInner(true, disconnectCount);
+    if (!this.#isPerfectForwardSecrecyEnabled) {
+      if (!this.authKey.byteLength) {
+        await this.#createAuthKey(disconnectCount);
+      }
+      this.#assertNotDisconnected(disconnectCount);
+      await super.connect();
+      this.#isAuthKeyBound = true;
+      return;
     }
-    this.#assertNotDisconnected(disconnectCount);
-    await super.connect();
 
-    if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#isAuthKeyBound = false;
-      await this.#bindTemporaryAuthKey();
-      this.#refreshTemporaryAuthKey();
-    } else {
-      this.#isAuthKeyBound = true;
+    if (!this.isDisconnected && this.#isAuthKeyBound) {
+      await super.connect();
+      return;
+    }
+
+    this.#isAuthKeyBound = false;
+    for (let i = 1;; ++i) {
+      if (!this.authKey.byteLength) {
+        await this.#createAuthKey(disconnectCount);
+      } else {
+        this.#L.debug("creating temporary auth key");
+        await this.#createAuthKeyInner(true, disconnectCount);
+      }
+      this.#assertNotDisconnected(disconnectCount);
+      try {
+        await super.connect();
+        await this.#bindTemporaryAuthKey();
+        break;
+      } catch (err) {
+        super.disconnect();
+        if (i >= ClientEncrypted.#AUTH_KEY_BINDING_MAX_TRIES || this.#disconnectCount !== disconnectCount) {
+          throw err;
+        }
+        this.#L.error("failed to bind temporary auth key:", err);
+      }
     }
+    this.#refreshTemporaryAuthKey();
   }
 
+  #bindingRequest?: SentRequest;
   async #bindTemporaryAuthKey() {
-    const nonce = getRandomId();
-    const expires_at = toUnixTimestamp(new Date()) + TEMPORARY_AUTH_KEY_TTL;
-    this.#temporaryAuthKeyExpiresAt = fromUnixTimestamp(expires_at).getTime();
-    const object: Mtproto.bind_auth_key_inner = {
-      _: "bind_auth_key_inner",
-      perm_auth_key_id: this.#authKeyId,
-      nonce,
-      expires_at,
-      temp_auth_key_id: this.session.authKeyId,
-      temp_session_id: this.session.id,
+    this.#temporaryAuthKeyExpiresAt = Date.now() + TEMPORARY_AUTH_KEY_TTL * SECOND;
+    const call: Api.auth_bindTempAuthKey = { _: "auth.bindTempAuthKey", perm_auth_key_id: this.#authKeyId, nonce: 0n, encrypted_message: new Uint8Array(), expires_at: 0 };
+    // the encrypted message is only valid in the message it was made for
+    const getBody = async (messageId: bigint) => {
+      const nonce = getRandomId();
+      const expires_at = toUnixTimestamp(new Date()) + this.session.timeDifference + TEMPORARY_AUTH_KEY_TTL;
+      const object: Mtproto.bind_auth_key_inner = {
+        _: "bind_auth_key_inner",
+        perm_auth_key_id: this.#authKeyId,
+        nonce,
+        expires_at,
+        temp_auth_key_id: this.session.authKeyId,
+        temp_session_id: this.session.id,
+      };
+      const encrypted_message = await this.#encryptMessage({
+        _: "message",
+        seqno: 0,
+        msg_id: messageId,
+        body: Mtproto.serializeObject(object),
+      });
+      return Api.serializeObject({ ...call, nonce, encrypted_message, expires_at });
     };
-    const encrypted_message = await this.#encryptMessage({
-      _: "message",
-      seqno: 0,
-      msg_id: this.session.previewNextMessageId(),
-      body: Mtproto.serializeObject(object),
-    });
-    await this.invoke({
-      _: "auth.bindTempAuthKey",
-      perm_auth_key_id: this.#authKeyId,
-      nonce,
-      encrypted_message,
-      expires_at,
-    }), this.#isAuthKeyBound = true;
+    const request: SentRequest = this.#bindingRequest = { call, getBody, promiseWithResolvers: Promise.withResolvers() };
+    try {
+      await this.#invoke(request);
+      this.#isAuthKeyBound = true;
+    } finally {
+      this.#bindingRequest = undefined;
+    }
+  }
+
+  #renewal?: number;
+  /** Whether the client was explicitly disconnected. It is not while its temporary auth key is being renewed. */
+  override get isDisconnected(): boolean {
+    return super.isDisconnected && this.#renewal !== this.#disconnectCount;
+  }
+
+  async #renewTemporaryAuthKey(reason: string) {
+    this.#L.debug("reconnecting with a new temporary auth key because of", reason);
+    this.disconnect();
+    const disconnectCount = this.#renewal = this.#disconnectCount;
+    while (this.#disconnectCount === disconnectCount) {
+      try {
+        await this.connect();
+        this.#renewal = undefined;
+        break;
+      } catch (err) {
+        this.#L.error("failed to reconnect with a new temporary auth key:", err);
+        await delay(3 * SECOND);
+      }
+    }
   }
 
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     signal.throwIfAborted();
-    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 5 * SECOND) {
+    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 120 * SECOND) {
       return;
     }
-    this.#L.debug("reconnecting with a new temporary auth key");
-    this.disconnect();
-    drop(this.connect());
+    drop(this.#renewTemporaryAuthKey("its expiry"));
   }, (loop, err) => {
     if (this.isDisconnected) {
       loop.abort();
@@ -235,6 +283,9 @@ export class ClientEncrypted extends ClientAbstract {
   override disconnect() {
     ++this.#disconnectCount;
     this.#connectPromise = undefined;
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      this.#isAuthKeyBound = false;
+    }
     for (const plain of this.#plainClients) {
       plain.disconnect();
     }
@@ -312,10 +363,12 @@ export class ClientEncrypted extends ClientAbstract {
 
   #isConnectionInitialized = false;
   lastRequest?: Date;
-  async #send(function_: Api.AnyFunction | Mtproto.ping, onMessageId: (messageId: bigint) => () => void) {
+  async #send({ call: function_, getBody }: SentRequest, onMessageId: (messageId: bigint) => () => void) {
     this.lastRequest = new Date();
-    let body: Uint8Array<ArrayBuffer>;
-    if (Mtproto.is("ping", function_)) {
+    let body: MessageBody;
+    if (getBody) {
+      body = getBody;
+    } else if (Mtproto.is("ping", function_)) {
       body = Mtproto.serializeObject(function_);
     } else {
       if (this.#isAuthKeyBound && this.#params?.disableUpdates && !isMediaFunction(function_)) {
@@ -367,7 +420,7 @@ export class ClientEncrypted extends ClientAbstract {
 
   async #resend(request: SentRequest) {
     try {
-      await this.#send(request.call, (messageId) => {
+      await this.#send(request, (messageId) => {
         this.#sentRequests.set(messageId, request);
         return () => this.#sentRequests.delete(messageId);
       });
@@ -378,26 +431,36 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
-    const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
+    // requests are refused until the temporary auth key is bound
+    while (this.#isPerfectForwardSecrecyEnabled && !this.#isAuthKeyBound && this.#connectPromise !== undefined) {
+      await this.#connectPromise.catch(() => {});
+    }
+    return await this.#invoke({ call: function_, promiseWithResolvers: Promise.withResolvers() }) as R;
+  }
+
+  async #invoke(sentRequest: SentRequest) {
     // might reject while still being sent
     sentRequest.promiseWithResolvers.promise.catch(() => {});
-    await this.#send(function_, (messageId) => {
-      this.#L.debug("sending", function_._, "with msg_id", messageId);
+    await this.#send(sentRequest, (messageId) => {
+      this.#L.debug("sending", sentRequest.call._, "with msg_id", messageId);
       this.#sentRequests.set(messageId, sentRequest);
       return () => this.#sentRequests.delete(messageId);
     });
-    return await sentRequest.promiseWithResolvers.promise as R;
+    return await sentRequest.promiseWithResolvers.promise;
   }
 
-  async #onTransportError(transportError: TransportError) {
+  #onTransportError(transportError: TransportError) {
     this.#L.error("transport error:", transportError);
     if (!this.#isPerfectForwardSecrecyEnabled) {
       return;
     }
     if (transportError.code === -404) {
-      this.#L.debug("reconnecting with a new temporary auth key");
-      this.disconnect();
-      await this.connect();
+      // must not be awaited as it needs the receive loop
+      if (this.#isAuthKeyBound) {
+        drop(this.#renewTemporaryAuthKey("a transport error"));
+      } else {
+        this.#bindingRequest?.promiseWithResolvers.reject(transportError);
+      }
     }
   }
 
@@ -435,13 +498,13 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async #onRpcError(msgId: bigint, error: Mtproto.rpc_error) {
-    if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
-      this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
-      this.disconnect();
-      await this.connect();
+    const request = this.#sentRequests.get(msgId);
+    if (this.#isPerfectForwardSecrecyEnabled && this.#isAuthKeyBound && error.error_message === "AUTH_KEY_PERM_EMPTY") {
+      // must not be awaited as it needs the receive loop
+      drop(this.#renewTemporaryAuthKey(error.error_message));
+      return;
     }
 
-    const request = this.#sentRequests.get(msgId);
     this.#L.debug("received rpc_error with req_msg_id =", msgId, "for", request === undefined ? "unknown" : "known", "request");
     if (request) {
       this.#sentRequests.delete(msgId);
@@ -474,7 +537,7 @@ export class ClientEncrypted extends ClientAbstract {
         this.#sentRequests.delete(msgId);
       }
     }
-    if (!this.#isConnectionInitialized) {
+    if (this.#isAuthKeyBound && !this.#isConnectionInitialized) {
       this.#isConnectionInitialized = true;
     }
   }
diff --git a/session/1_session.ts b/session/1_session.ts
index cf0980e..29db406 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -201,7 +201,7 @@ export abstract class Session {
     this.#resolveConnectionStateChange();
   }
 
-  abstract send(body: Uint8Array, onMessageId: (messageId: bigint) => () => void): Promise<void>;
+  abstract send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void): Promise<void>;
 
   previewNextMessageId(): bigint {
     return this.state.previewNextMessageId();
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 8f5496f..f772fed 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -36,7 +36,10 @@ const RPC_ERROR = Mtproto.schema.definitions["rpc_error"][0];
 const COMPRESSION_THRESHOLD = 0.9;
 const LARGE_PACKET_SIZE = 16384;
 
-type PendingMessage = { body: Uint8Array<ArrayBuffer>; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
+/** The body of a message, or a function that makes it for the identifier of the message. */
+export type MessageBody = Uint8Array<ArrayBuffer> | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
+
+type PendingMessage = { body: MessageBody; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
 
 type PendingPing = { call: Mtproto.ping_delay_disconnect; promiseWithResolvers: PromiseWithResolvers<Mtproto.pong> };
 
@@ -99,6 +102,11 @@ export class SessionEncrypted extends Session implements Session {
     return this.#authKeyId;
   }
 
+  /** The number of seconds that the server's clock is ahead. */
+  get timeDifference(): number {
+    return this.state.timeDifference;
+  }
+
   override async connect(): Promise<void> {
     if (!this.isConnected && this.#invalidation === null) {
       this.#rejectAllPending(new ConnectionError("The connection was closed."));
@@ -239,7 +247,7 @@ export class SessionEncrypted extends Session implements Session {
     drop(this.handlers.onNewServerSalt?.(newServerSalt));
   }
 
-  async send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void) {
+  override async send(body: MessageBody, onMessageId: (messageId: bigint) => () => void) {
     await this.#invalidation?.promise;
     if (!this.isDisconnected && !this.isConnected) {
       await super.waitUntilConnected();
@@ -392,7 +400,7 @@ export class SessionEncrypted extends Session implements Session {
       unregister = pendingMessage.onMessageId(msg_id);
 
       let shouldGzip = false;
-      let body = pendingMessage.body;
+      let body = typeof pendingMessage.body === "function" ? await pendingMessage.body(msg_id) : pendingMessage.body;
       if (body.byteLength > 1024) {
         this.#L.debug("gzipping message", msg_id);
         shouldGzip = true;
-- 
2.43.0


From 131fa62f6c5119b7ba6a6a43565b6229ee807a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 26/73] fix: read serialized objects returned by getMany

---
 client/0_storage_operations.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 3ac4d54..b1612a0 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -262,7 +262,7 @@ export class StorageOperations {
 
   async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
     // @ts-ignore: TBD
-    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer) || (Array.isArray(keyOrBuffer) && keyOrBuffer[1] instanceof Uint8Array)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
         return Api.deserializeType(X, rleDecode(buffer));
-- 
2.43.0


From 50bdbad50d356799d75648ebb07e422c3fc4d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 27/73] fix: keep stored updates in order when the clock was
 set back

---
 client/0_storage_operations.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index b1612a0..9ebb1ad 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -498,7 +498,18 @@ export class StorageOperations {
     }
     return this.#lastUpdateId = id;
   }
+  #updateBoxIds = new Set<bigint>();
   async setUpdate(boxId: bigint, update: Api.Update) {
+    if (!this.#updateBoxIds.has(boxId)) {
+      // The updates left by the previous run might have been stored when the clock was ahead.
+      for await (const [key] of await this.#storage.getMany({ prefix: K.updates.updates(boxId) }, { limit: 1, reverse: true })) {
+        const id = key[2] as bigint;
+        if (id > this.#lastUpdateId) {
+          this.#lastUpdateId = id;
+        }
+      }
+      this.#updateBoxIds.add(boxId);
+    }
     await this.setTlObject(K.updates.update(boxId, this.#getUpdateId(update)), update);
   }
 
-- 
2.43.0


From 59dd39a62d882a23905a4c61c3ccdeb13e462811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 28/73] fix: keep the update gap recovery loop running through
 connection losses

---
 client/6_client.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..4ac6ace 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -532,11 +532,11 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   #lastUpdates = new Date();
   #updateGapRecoveryLoop = new AbortableLoop(async (loop, signal) => {
     await delay(60 * SECOND, { signal });
-    if (!this.isConnected) {
+    if (this.isDisconnected) {
       loop.abort();
       return;
     }
-    if (Date.now() - this.#lastUpdates.getTime() >= 15 * MINUTE) {
+    if (this.isConnected && Date.now() - this.#lastUpdates.getTime() >= 15 * MINUTE) {
       drop(
         this.#updateManager.recoverUpdateGap("lastUpdates").then(() => {
           this.#lastUpdates = new Date();
@@ -544,7 +544,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       );
     }
   }, (loop, err) => {
-    if (!this.isConnected) {
+    if (this.isDisconnected) {
       loop.abort();
     } else {
       this.#LupdateGapRecoveryLoop.error(err);
@@ -553,7 +553,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
 
   #clientDisconnectionLoop = new AbortableLoop(async (loop, signal) => {
     await delay(60 * SECOND, { signal });
-    if (!this.isConnected) {
+    if (this.isDisconnected) {
       loop.abort();
       return;
     }
@@ -565,7 +565,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       }
     }
   }, (loop) => {
-    if (!this.isConnected) {
+    if (this.isDisconnected) {
       loop.abort();
     }
   });
-- 
2.43.0


From 7a78ee125f49fd19ab40181d96d5d57f1ded8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 29/73] fix: deliver the messages of channelDifferenceTooLong
 before later updates

---
 client/2_update_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..0cdfdf6 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -861,7 +861,7 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-          await this.#processUpdates({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#processChannelPtsUpdateInner({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-- 
2.43.0


From 4f6f7adab490678bf97bf9e391c2ee18a320094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 30/73] fix: do not accept updates while the difference
 covering them is processed

---
 client/2_update_manager.ts | 170 ++++++++++++++++++++++---------------
 1 file changed, 100 insertions(+), 70 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 0cdfdf6..97d593f 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -172,7 +172,17 @@ export class UpdateManager {
     }
   }
 
+  #fetchStateMutex = new Mutex();
   async fetchState(source: string) {
+    const unlock = await this.#fetchStateMutex.lock();
+    try {
+      await this.#fetchStateInner(source);
+    } finally {
+      unlock();
+    }
+  }
+
+  async #fetchStateInner(source: string) {
     let state = await this.#c.invoke({ _: "updates.getState" });
     const difference = await this.#c.invoke({ ...state, _: "updates.getDifference" });
     if (Api.is("updates.difference", difference)) {
@@ -182,7 +192,8 @@ export class UpdateManager {
     }
     this.#updateState = state;
     this.#LfetchState.debug(`state fetched [${source}]`);
-    if (this.#mustDropPendingUpdates()) {
+    // The local state must not go back to before the updates that were accepted in the meantime.
+    if (this.#mustDropPendingUpdates() && (this.#state === null || (this.#state.pts <= state.pts && this.#state.qts <= state.qts))) {
       await this.#setState(state);
     }
   }
@@ -358,13 +369,13 @@ export class UpdateManager {
   async #checkGap(pts: number, ptsCount: number) {
     const localState = await this.#getLocalState();
     if (localState.pts < pts && localState.pts + ptsCount !== pts) {
-      await this.recoverUpdateGap("processUpdates[pts]");
+      await this.#recoverUpdateGapInner("processUpdates[pts]");
     }
   }
   async #checkGapQts(qts: number) {
     const localState = await this.#getLocalState();
     if (localState.qts + UpdateManager.QTS_COUNT < qts) {
-      await this.recoverUpdateGap("processUpdates[qts]");
+      await this.#recoverUpdateGapInner("processUpdates[qts]");
     }
   }
   async #checkChannelGap(channelId: bigint, pts: number, ptsCount: number) {
@@ -373,7 +384,7 @@ export class UpdateManager {
       localPts = pts - ptsCount;
     }
     if (localPts < pts && localPts + ptsCount !== pts) {
-      await this.#recoverChannelUpdateGap(channelId, "processUpdates");
+      await this.#recoverChannelUpdateGapInner(channelId, "processUpdates");
     }
   }
 
@@ -388,7 +399,7 @@ export class UpdateManager {
           this.#c.storage.channelPts.set([channelId], update.pts);
         }
       }
-      await this.#recoverChannelUpdateGap(channelId, "updateChannelTooLong");
+      await this.#recoverChannelUpdateGapInner(channelId, "updateChannelTooLong");
       return;
     }
     if (update.pts !== 0) {
@@ -430,7 +441,12 @@ export class UpdateManager {
       this.#channelUpdateQueues.set(channelId, queue);
     }
     queue.add(async () => {
-      await this.#processChannelPtsUpdateInner(update, checkGap);
+      const unlock = await this.#getRecoverChannelUpdateGapMutex(channelId).lock();
+      try {
+        await this.#processChannelPtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -438,7 +454,7 @@ export class UpdateManager {
     if (update.pts !== 0 && checkGap) {
       await this.#checkGap(update.pts, update.pts_count);
       if (await this.#needsGetDifference(update)) {
-        await this.recoverUpdateGap("needsGetDifference");
+        await this.#recoverUpdateGapInner("needsGetDifference");
       }
     }
 
@@ -451,7 +467,7 @@ export class UpdateManager {
       await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
     }
     if (update.pts !== 0) {
-      await this.#setUpdatePts(update.pts);
+      await this.#updateLocalState({ pts: update.pts });
     }
     this.#queueUpdate(update, UpdateManager.MAIN_BOX_ID, true);
   }
@@ -459,7 +475,12 @@ export class UpdateManager {
   #ptsUpdateQueue = new Queue("ptsUpdate");
   #processPtsUpdate(update: PtsUpdate, checkGap: boolean) {
     this.#ptsUpdateQueue.add(async () => {
-      await this.#processPtsUpdateInner(update, checkGap);
+      const unlock = await this.#recoverUpdateGapMutex.lock();
+      try {
+        await this.#processPtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -479,7 +500,7 @@ export class UpdateManager {
       await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
     }
     if (update.qts !== 0) {
-      await this.#setUpdateQts(update.qts);
+      await this.#updateLocalState({ qts: update.qts });
     }
     this.#queueUpdate(update, 0n, true);
   }
@@ -487,7 +508,12 @@ export class UpdateManager {
   #qtsUpdateQueue = new Queue("qtsUpdate");
   #processQtsUpdate(update: QtsUpdate, checkGap: boolean) {
     this.#qtsUpdateQueue.add(async () => {
-      await this.#processQtsUpdateInner(update, checkGap);
+      const unlock = await this.#recoverUpdateGapMutex.lock();
+      try {
+        await this.#processQtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -513,27 +539,29 @@ export class UpdateManager {
         if (seqStart === 0) {
           this.#L$processUpdates.debug("seqStart=0");
         } else {
-          let localState = await this.#getLocalState();
+          const unlock = await this.#recoverUpdateGapMutex.lock();
+          try {
+            let localState = await this.#getLocalState();
 
-          if (localState.seq + 1 < seqStart) {
-            // There's an update gap that must be filled.
-            await this.recoverUpdateGap("localSeq + 1 < seqStart");
-            localState = await this.#getLocalState();
-          }
+            if (localState.seq + 1 < seqStart) {
+              // There's an update gap that must be filled.
+              await this.#recoverUpdateGapInner("localSeq + 1 < seqStart");
+              localState = await this.#getLocalState();
+            }
 
-          if (localState.seq + 1 === seqStart) {
-            // The update sequence can be applied.
-            localState.seq = seq;
-            localState.date = updates_.date;
-            await this.#setUpdateStateDate(updates_.date);
-            await this.#setState(localState);
-          } else if (localState.seq + 1 > seqStart) {
-            // The update sequence was already applied, and must be ignored.
-            this.#L$processUpdates.debug("localSeq + 1 > seqStart");
-            return;
-          } else {
-            this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
-            return;
+            if (localState.seq + 1 === seqStart) {
+              // The update sequence can be applied.
+              await this.#updateLocalState({ seq, date: updates_.date });
+            } else if (localState.seq + 1 > seqStart) {
+              // The update sequence was already applied, and must be ignored.
+              this.#L$processUpdates.debug("localSeq + 1 > seqStart");
+              return;
+            } else {
+              this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
+              return;
+            }
+          } finally {
+            unlock();
           }
         }
       }
@@ -625,7 +653,7 @@ export class UpdateManager {
     if (Api.is("updates", updates_) || Api.is("updatesCombined", updates_)) {
       this.processChats(updates_.chats, updates_);
       await this.processUsers(updates_.users, updates_);
-      await this.#setUpdateStateDate(updates_.date);
+      await this.#updateLocalState({ date: updates_.date });
     } else if (
       Api.isOneOf([
         "updateShort",
@@ -634,7 +662,7 @@ export class UpdateManager {
         "updateShortSentMessage",
       ], updates_)
     ) {
-      await this.#setUpdateStateDate(updates_.date);
+      await this.#updateLocalState({ date: updates_.date });
     }
 
     let updatePtsChanged = false;
@@ -652,7 +680,8 @@ export class UpdateManager {
       }
     }
     if (updatePtsChanged) {
-      await Promise.all([this.#ptsUpdateQueue, this.#qtsUpdateQueue].map((queue) => new Promise<void>((resolve) => queue.add(() => Promise.resolve().then(resolve)))));
+      // When checkGap is false, a gap is being recovered, and the queues do not proceed until that is done.
+      if (checkGap) await Promise.all([this.#ptsUpdateQueue, this.#qtsUpdateQueue].map((queue) => new Promise<void>((resolve) => queue.add(() => Promise.resolve().then(resolve)))));
       await this.fetchState("updatePtsChanged");
       if (this.#updateState) {
         await this.#setState(this.#updateState);
@@ -662,56 +691,59 @@ export class UpdateManager {
     }
   }
 
-  async #setUpdateStateDate(date: number) {
+  async #updateLocalState(changes: Partial<Api.updates_State>) {
     const localState = await this.#getLocalState();
-    localState.date = date;
-    await this.#setState(localState);
-  }
-
-  async #setUpdatePts(pts: number) {
-    const localState = await this.#getLocalState();
-    localState.pts = pts;
-    await this.#setState(localState);
-  }
-  async #setUpdateQts(qts: number) {
-    const localState = await this.#getLocalState();
-    localState.qts = qts;
-    await this.#setState(localState);
+    // The state might have been replaced while it was being retrieved.
+    await this.#setState({ ...(this.#state ?? localState), ...changes });
   }
 
   async #getLocalState() {
     let localState = await this.#getState();
     if (!localState) {
-      if (this.#updateState) {
-        localState = this.#updateState;
-        await this.#setState(localState);
-      } else {
-        await this.fetchState("getLocalState");
+      const unlock = await this.#fetchStateMutex.lock();
+      try {
+        if (this.#state) {
+          return this.#state;
+        }
+        if (!this.#updateState) {
+          await this.#fetchStateInner("getLocalState");
+        }
         if (this.#updateState) {
-          localState = this.#updateState;
+          localState = this.#state ?? this.#updateState;
           await this.#setState(localState);
         } else {
           unreachable();
         }
+      } finally {
+        unlock();
       }
     }
     return localState;
   }
 
   #updateGapRecoveryCount = 0;
+  #lastUpdateGapRecovery = 0;
+  // Also held while sequenced updates are being accepted, so that they are not accepted while the difference that might include them is being processed.
   #recoverUpdateGapMutex = new Mutex();
   async recoverUpdateGap(source: string) {
     const updateGapRecoveryCount = this.#updateGapRecoveryCount;
     const unlock = await this.#recoverUpdateGapMutex.lock();
-    if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
-      this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+    try {
+      if (this.#lastUpdateGapRecovery > updateGapRecoveryCount) {
+        this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+        return;
+      }
+      await this.#recoverUpdateGapInner(source);
+    } finally {
       unlock();
-      return;
     }
+  }
+
+  async #recoverUpdateGapInner(source: string) {
     this.#LrecoverUpdateGap.debug(`recovering from update gap [${source}]`);
 
     this.#c.setConnectionState("updating");
-    let wasRecovered = false;
+    const recovery = ++this.#updateGapRecoveryCount;
     try {
       let retryIn = 5;
       let state = await this.#getLocalState();
@@ -754,7 +786,7 @@ export class UpdateManager {
           if (Api.is("updates.difference", difference)) {
             await this.#setState(difference.state);
             this.#LrecoverUpdateGap.debug("recovered from update gap");
-            wasRecovered = true;
+            this.#lastUpdateGapRecovery = recovery;
             break;
           } else if (Api.is("updates.differenceSlice", difference)) {
             state = difference.intermediate_state;
@@ -764,15 +796,13 @@ export class UpdateManager {
           }
         } else if (Api.is("updates.differenceTooLong", difference)) {
           await this.#c.messageStorage.deleteMessages();
-          state.pts = difference.pts;
+          await this.#updateLocalState({ pts: difference.pts });
+          state = { ...state, pts: difference.pts };
           this.#LrecoverUpdateGap.debug("received differenceTooLong");
         } else if (Api.is("updates.differenceEmpty", difference)) {
-          const localState = await this.#getLocalState();
-          localState.date = difference.date;
-          localState.seq = difference.seq;
-          await this.#setState(localState);
+          await this.#updateLocalState({ date: difference.date, seq: difference.seq });
           this.#LrecoverUpdateGap.debug("there was no update gap");
-          wasRecovered = true;
+          this.#lastUpdateGapRecovery = recovery;
           break;
         } else {
           unreachable();
@@ -782,22 +812,22 @@ export class UpdateManager {
       this.#LrecoverUpdateGap.error(err);
       throw err;
     } finally {
-      if (wasRecovered) {
-        ++this.#updateGapRecoveryCount;
-      }
-      unlock();
       this.#c.resetConnectionState();
     }
   }
 
   #recoverChannelUpdateGapMutexes = new Map<bigint, Mutex>();
-  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+  #getRecoverChannelUpdateGapMutex(channelId: bigint) {
     let mutex = this.#recoverChannelUpdateGapMutexes.get(channelId);
     if (!mutex) {
       mutex = new Mutex();
       this.#recoverChannelUpdateGapMutexes.set(channelId, mutex);
     }
-    const unlock = await mutex.lock();
+    return mutex;
+  }
+
+  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+    const unlock = await this.#getRecoverChannelUpdateGapMutex(channelId).lock();
     try {
       return await this.#recoverChannelUpdateGapInner(channelId, source);
     } finally {
-- 
2.43.0


From aec80aba54fcbe630180492da5b2bda2bfa0edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 31/73] fix: hand out updates accepted while the replay of
 stored updates ends

---
 client/2_update_manager.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 97d593f..e73f57e 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -915,6 +915,7 @@ export class UpdateManager {
   }
 
   #handleUpdatesSet = new Set<bigint>();
+  #handleUpdatesAgain = new Set<bigint>();
   async replayStoredUpdates() {
     for (const boxId of await this.#c.storage.getUpdateBoxIds()) {
       await this.#handleStoredUpdates(boxId);
@@ -923,13 +924,19 @@ export class UpdateManager {
 
   async #handleStoredUpdates(boxId: bigint) {
     if (this.#handleUpdatesSet.has(boxId)) {
+      // the running call might have already seen the end of the box
+      this.#handleUpdatesAgain.add(boxId);
       return;
     }
     this.#handleUpdatesSet.add(boxId);
     try {
       do {
+        this.#handleUpdatesAgain.delete(boxId);
         const maybeUpdate = await this.#c.storage.getFirstUpdate(boxId);
         if (maybeUpdate === null) {
+          if (this.#handleUpdatesAgain.has(boxId)) {
+            continue;
+          }
           break;
         }
         const [key, update] = maybeUpdate;
@@ -952,12 +959,16 @@ export class UpdateManager {
           }
         }
         if (!handled) {
+          if (this.#handleUpdatesAgain.has(boxId)) {
+            continue;
+          }
           break;
         }
         await this.#c.storage.set(key, null);
       } while (true);
     } finally {
       this.#handleUpdatesSet.delete(boxId);
+      this.#handleUpdatesAgain.delete(boxId);
     }
   }
 
-- 
2.43.0


From 1e1f04f6f19b46d17ffd274ac398025fa844644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 32/73] fix: surface errors with unreadable or inherited names
 as general errors

---
 4_errors.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/4_errors.ts b/4_errors.ts
index 6b89b81..eded38a 100644
--- a/4_errors.ts
+++ b/4_errors.ts
@@ -76,11 +76,12 @@ const prefixMap = {
 
 export function constructTelegramError(error: Mtproto.rpc_error, call: unknown): TelegramError {
   for (const [k, v] of Object.entries(prefixMap)) {
-    if (error.error_message.startsWith(k)) {
+    // anything else than a number would be refused by the constructor
+    if (error.error_message.startsWith(k) && /^\d+$/.test(error.error_message.slice(k.length))) {
       return new v({ ...error, call });
     }
   }
-  if (error.error_message in map) {
+  if (Object.hasOwn(map, error.error_message)) {
     return new map[error.error_message as keyof typeof map]({ ...error, call });
   }
   return new TelegramError({ ...error, call });
-- 
2.43.0


From 373f551ff052dba63fa2101e913054d602f1f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 33/73] fix: keep the failed call handlers of each client apart

---
 client/6_client.ts            | 3 ++-
 client/6_client_dispatcher.ts | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 4ac6ace..82c93e6 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1433,7 +1433,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<Client<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    // the method itself is shared by all instances
+    this.#invoke.bind(this),
     {
       use: (handler: InvokeErrorHandler<Client<C>>) => {
         const handle = this.#handleInvokeError;
diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index a50455e..9e2c21e 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -359,7 +359,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    // the method itself is shared by all instances
+    this.#invoke.bind(this),
     {
       use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => {
         const handle = this.#handleInvokeError;
-- 
2.43.0


From 444a4e5decd4fe9db03e137554adb060ed51ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 34/73] fix: consult failed call handlers once per failure
 behind a worker

---
 client/6_client_dispatcher.ts | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 9e2c21e..7ffed90 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -181,18 +181,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   }
 
   async #invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R> {
-    let n = 1;
-    while (true) {
-      try {
-        return await this.#dispatch("invoke", function_, params);
-      } catch (err) {
-        if (await this.#handleInvokeError(Object.freeze({ client: this, error: err, function: function_, n: n++ }), () => Promise.resolve(false))) {
-          continue;
-        } else {
-          throw err;
-        }
-      }
-    }
+    // the hosted client asks the handlers itself
+    return await this.#dispatch("invoke", function_, params);
   }
 
   #handleInvokeError = skipInvoke<ClientDispatcher<C>>();
-- 
2.43.0


From f2d1513d16fda11d35a30047a0e74f5e6719a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 35/73] fix: keep updates in order while the account is being
 fetched

---
 client/5_composer.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/client/5_composer.ts b/client/5_composer.ts
index 2dcbd2d..c1389c7 100644
--- a/client/5_composer.ts
+++ b/client/5_composer.ts
@@ -64,6 +64,7 @@ export function skip<C>(_ctx: C, next: NextFunction): Promise<void> {
 }
 
 const lastGetMe = new WeakMap<ClientGeneric, User>();
+const getMeRequests = new WeakMap<ClientGeneric, Promise<User>>();
 
 export class Composer<C extends Context> implements MiddlewareObj<C> {
   #handle: MiddlewareFn<C>;
@@ -82,13 +83,29 @@ export class Composer<C extends Context> implements MiddlewareObj<C> {
 
   protected resetLastGetMe(client: ClientGeneric) {
     lastGetMe.delete(client);
+    getMeRequests.delete(client);
   }
 
   async handleUpdate(client: ClientGeneric, update: Update) {
     let me = lastGetMe.get(client);
     if (!me && !("connectionState" in update) && (!("authorizationState" in update) || ("authorizationState" in update && update.authorizationState.isAuthorized))) {
-      me = await client.getMe();
-      lastGetMe.set(client, me);
+      // shared so that the updates waiting for it are handled in order
+      let request = getMeRequests.get(client);
+      if (!request) {
+        const promise = client.getMe().then((me) => {
+          if (getMeRequests.get(client) === promise) {
+            lastGetMe.set(client, me);
+          }
+          return me;
+        }).finally(() => {
+          if (getMeRequests.get(client) === promise) {
+            getMeRequests.delete(client);
+          }
+        });
+        getMeRequests.set(client, promise);
+        request = promise;
+      }
+      me = await request;
     }
 
     const ctx = new Context(client, me, update);
-- 
2.43.0


From 6aace6537bdf7e8e9dd22315a9c50a8de9735794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 36/73] fix: order updates in the worker front end itself

Sharing the request in the composer made getMe() of a hosting client wait for itself.
---
 client/5_composer.ts          | 36 ++++++++++++++---------------------
 client/6_client_dispatcher.ts |  7 ++++++-
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/client/5_composer.ts b/client/5_composer.ts
index c1389c7..0f2ae18 100644
--- a/client/5_composer.ts
+++ b/client/5_composer.ts
@@ -64,7 +64,6 @@ export function skip<C>(_ctx: C, next: NextFunction): Promise<void> {
 }
 
 const lastGetMe = new WeakMap<ClientGeneric, User>();
-const getMeRequests = new WeakMap<ClientGeneric, Promise<User>>();
 
 export class Composer<C extends Context> implements MiddlewareObj<C> {
   #handle: MiddlewareFn<C>;
@@ -83,34 +82,27 @@ export class Composer<C extends Context> implements MiddlewareObj<C> {
 
   protected resetLastGetMe(client: ClientGeneric) {
     lastGetMe.delete(client);
-    getMeRequests.delete(client);
   }
 
-  async handleUpdate(client: ClientGeneric, update: Update) {
+  /** @internal */
+  protected async createContext(client: ClientGeneric, update: Update): Promise<C> {
     let me = lastGetMe.get(client);
     if (!me && !("connectionState" in update) && (!("authorizationState" in update) || ("authorizationState" in update && update.authorizationState.isAuthorized))) {
-      // shared so that the updates waiting for it are handled in order
-      let request = getMeRequests.get(client);
-      if (!request) {
-        const promise = client.getMe().then((me) => {
-          if (getMeRequests.get(client) === promise) {
-            lastGetMe.set(client, me);
-          }
-          return me;
-        }).finally(() => {
-          if (getMeRequests.get(client) === promise) {
-            getMeRequests.delete(client);
-          }
-        });
-        getMeRequests.set(client, promise);
-        request = promise;
-      }
-      me = await request;
+      me = await client.getMe();
+      lastGetMe.set(client, me);
     }
 
-    const ctx = new Context(client, me, update);
+    return new Context(client, me, update) as C;
+  }
+
+  /** @internal */
+  protected async handleContext(ctx: C) {
     const next = () => Promise.resolve();
-    await this.#handle(ctx as C, next);
+    await this.#handle(ctx, next);
+  }
+
+  async handleUpdate(client: ClientGeneric, update: Update) {
+    await this.handleContext(await this.createContext(client, update));
   }
 
   middleware(): MiddlewareFn<C> {
diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 7ffed90..fde98f7 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -91,6 +91,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
 
   // deno-lint-ignore no-explicit-any
   #pendingRequests = new Map<string, PromiseWithResolvers<any>>();
+  #lastContext: Promise<unknown> = Promise.resolve();
 
   constructor(worker: Worker | MessagePort, id: string) {
     super();
@@ -115,7 +116,11 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     } else {
       if (response.id === "") {
         try {
-          await this.handleUpdate(this, response.data as Update);
+          // contexts are created one after another as that might take a request
+          const update = response.data as Update;
+          const ctx = this.#lastContext.then(() => this.createContext(this, update));
+          this.#lastContext = ctx.catch(() => {});
+          await this.handleContext(await ctx);
         } catch (err) {
           this.#L.error("Error handling update:", err);
         }
-- 
2.43.0


From 3ce59a83a3aee3677d37e68b3afcf21101fd7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 37/73] fix: stop an upload that fails or is aborted

---
 client/2_file_manager.ts | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..446d489 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -90,11 +90,24 @@ export class FileManager {
     const whatIsUploaded = contents instanceof Uint8Array ? (isBig ? "big file" : "file") + " of size " + size : "stream";
     this.#Lupload.debug("uploading " + whatIsUploaded + " with chunk size of " + chunkSize + " and pool size of " + poolSize + " and file ID of " + fileId);
 
+    const controller = new AbortController();
+    const onAbort = () => controller.abort(params?.signal?.reason);
+    params?.signal?.addEventListener("abort", onAbort, { once: true });
     let result: { isSmall: boolean; parts: number; firstPart?: Uint8Array<ArrayBuffer>; fileSize: number };
-    if (contents instanceof Uint8Array) {
-      result = await this.#uploadBuffer(contents, fileId, mustTrackProgress, chunkSize, poolSize, params?.signal, encryptionInformation);
-    } else {
-      result = await this.#uploadStream(contents, fileId, mustTrackProgress, size, chunkSize, poolSize, params?.signal, encryptionInformation);
+    try {
+      if (params?.signal?.aborted) {
+        onAbort();
+      }
+      if (contents instanceof Uint8Array) {
+        result = await this.#uploadBuffer(contents, fileId, mustTrackProgress, chunkSize, poolSize, controller.signal, encryptionInformation);
+      } else {
+        result = await this.#uploadStream(contents, fileId, mustTrackProgress, size, chunkSize, poolSize, controller, encryptionInformation);
+      }
+    } catch (err) {
+      controller.abort(err);
+      throw err;
+    } finally {
+      params?.signal?.removeEventListener("abort", onAbort);
     }
 
     this.#Lupload.debug(`[${fileId}] uploaded ` + result.parts + " part(s)");
@@ -123,7 +136,7 @@ export class FileManager {
     }
   }
 
-  async #uploadStream(stream: ReadableStream<Uint8Array>, fileId: bigint, mustTrackProgress: boolean, size: number, chunkSize: number, poolSize: number, signal: AbortSignal | undefined, encryptionInformation: EncryptionInformation | undefined) {
+  async #uploadStream(stream: ReadableStream<Uint8Array>, fileId: bigint, mustTrackProgress: boolean, size: number, chunkSize: number, poolSize: number, controller: AbortController, encryptionInformation: EncryptionInformation | undefined) {
     let part: Part;
     let promises = new Array<Promise<void>>();
     let ms = 0.05;
@@ -132,7 +145,7 @@ export class FileManager {
     let iv = encryptionInformation?.iv;
     let fileSize = 0;
     const total = size > 0 ? size : 0;
-    for await (part of iterateReadableStream(stream.pipeThrough(new PartStream(chunkSize)))) {
+    for await (part of iterateReadableStream(stream.pipeThrough(new PartStream(chunkSize), { signal: controller.signal }))) {
       if (part.totalParts === 0) {
         throw new InputError("Invalid file size.");
       }
@@ -157,7 +170,7 @@ export class FileManager {
         iv = concat([left, right]);
       }
       promises.push(
-        this.#uploadPart(fileId, part.totalParts, !part.isSmall, part.part, part.bytes, signal).then(() => {
+        this.#uploadPart(fileId, part.totalParts, !part.isSmall, part.part, part.bytes, controller.signal).then(() => {
           if (mustTrackProgress) {
             uploaded += partSize;
             this.#c.handleUpdate({
@@ -172,6 +185,7 @@ export class FileManager {
           }
         }),
       );
+      promises.at(-1)!.catch((err) => controller.abort(err));
       if (promises.length === poolSize * UPLOAD_REQUEST_PER_CONNECTION) {
         await Promise.all(promises);
         promises = [];
@@ -192,7 +206,7 @@ export class FileManager {
     return { isSmall: part!.isSmall, parts: part!.totalParts, firstPart, fileSize };
   }
 
-  async #uploadBuffer(buffer: Uint8Array<ArrayBuffer>, fileId: bigint, mustTrackProgress: boolean, chunkSize: number, poolSize: number, signal: AbortSignal | undefined, encryptionInformation: EncryptionInformation | undefined) {
+  async #uploadBuffer(buffer: Uint8Array<ArrayBuffer>, fileId: bigint, mustTrackProgress: boolean, chunkSize: number, poolSize: number, signal: AbortSignal, encryptionInformation: EncryptionInformation | undefined) {
     const isBig = buffer.byteLength > FileManager.#BIG_FILE_THRESHOLD;
     const partCount = Math.ceil(buffer.byteLength / chunkSize);
     const promises = new Array<Promise<void>>();
@@ -272,22 +286,23 @@ export class FileManager {
     return { isSmall: !isBig, parts: partCount, firstPart, fileSize };
   }
 
-  async #uploadPart(fileId: bigint, partCount: number, isBig: boolean, index: number, bytes: Uint8Array<ArrayBuffer>, signal: AbortSignal | undefined) {
+  async #uploadPart(fileId: bigint, partCount: number, isBig: boolean, index: number, bytes: Uint8Array<ArrayBuffer>, signal: AbortSignal) {
     let retryIn = 1;
     let errorCount = 0;
     while (true) {
       try {
-        signal?.throwIfAborted();
+        signal.throwIfAborted();
         this.#Lupload.debug(`[${fileId}] uploading part ` + (index + 1));
         if (isBig) {
           await this.#c.invoke({ _: "upload.saveBigFilePart", file_id: fileId, file_part: index, bytes, file_total_parts: partCount }, { type: "upload" });
         } else {
           await this.#c.invoke({ _: "upload.saveFilePart", file_id: fileId, bytes, file_part: index }, { type: "upload" });
         }
+        signal.throwIfAborted();
         this.#Lupload.debug(`[${fileId}] uploaded part ` + (index + 1));
         break;
       } catch (err) {
-        signal?.throwIfAborted();
+        signal.throwIfAborted();
         this.#Lupload.debug(`[${fileId}] failed to upload part ` + (index + 1));
         ++errorCount;
         if (errorCount > 20) {
-- 
2.43.0


From 4cc4862b4e9a1157011c89b2ee26dfd4815db102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 38/73] fix: keep small profile photos out of the file cache

---
 client/2_file_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 446d489..9ff8741 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -412,7 +412,7 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
-- 
2.43.0


From 43c85463de3db9c85420881385af5a0d12f46964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 39/73] fix: refuse invalid chunk sizes of cached files too

---
 client/2_file_manager.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 9ff8741..2a8599a 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -412,6 +412,8 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
+    const chunkSize = params?.chunkSize ?? DOWNLOAD_MAX_CHUNK_SIZE;
+    FileManager.validateChunkSize(chunkSize, DOWNLOAD_MAX_CHUNK_SIZE);
     const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
@@ -446,9 +448,6 @@ export class FileManager {
       fileSize = parseInt(withoutVersion.slice(128));
     }
 
-    const chunkSize = params?.chunkSize ?? DOWNLOAD_MAX_CHUNK_SIZE;
-    FileManager.validateChunkSize(chunkSize, DOWNLOAD_MAX_CHUNK_SIZE);
-
     const dc = getDc(dcId);
     signal?.throwIfAborted();
 
-- 
2.43.0


From 225055499c5f766e2d2f164c34cd481e73b4ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 40/73] fix: do not mix or spoil the cached parts of a file

---
 client/2_file_manager.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 2a8599a..76aea7c 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -405,6 +405,8 @@ export class FileManager {
     return { size: params?.fileSize ? params.fileSize : size, name, contents };
   }
 
+  // files that are currently being written to the cache
+  #cachingIds = new Set<bigint>();
   // deno-lint-ignore no-explicit-any
   async *downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
     const signal = params?.signal;
@@ -454,7 +456,10 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
+    const cacheId = offset === 0n && id !== null && this.#c.storage.supportsFiles && !this.#cachingIds.has(id) ? id : null;
+    if (cacheId !== null) {
+      this.#cachingIds.add(cacheId);
+    }
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
@@ -509,13 +514,13 @@ export class FileManager {
             bytesToSkip -= skipped;
             result.bytes = result.bytes.subarray(skipped);
           }
-          if (result.bytes.byteLength) {
-            yield result.bytes;
-          }
           if (cacheId !== null) {
             await this.#c.storage.saveFilePart(cacheId, part, bytesToCache);
             signal?.throwIfAborted();
           }
+          if (result.bytes.byteLength) {
+            yield result.bytes;
+          }
           ++part;
           if (finished) {
             if (cacheId !== null) {
@@ -531,6 +536,9 @@ export class FileManager {
         }
       }
     } finally {
+      if (cacheId !== null) {
+        this.#cachingIds.delete(cacheId);
+      }
       signal?.removeEventListener("abort", abortRequests);
       requestController.abort();
     }
-- 
2.43.0


From b8d177d227ff845d8772a9a90bf8efc5a3a2caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 41/73] fix: request file parts as the service allows

---
 client/2_file_manager.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 76aea7c..f6fdcb2 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -550,7 +550,7 @@ export class FileManager {
     while (true) {
       try {
         signal?.throwIfAborted();
-        return await this.#c.invoke({ _: "upload.getFile", location, offset, limit }, { dc, type: "download" });
+        return await this.#getFilePart(location, offset, limit, dc, signal);
       } catch (err) {
         if (typeof err === "object" && err instanceof AssertionError) {
           throw err;
@@ -571,6 +571,18 @@ export class FileManager {
     }
   }
 
+  /** Parts must not cross one-megabyte boundaries. */
+  async #getFilePart(location: Api.InputFileLocation, offset: bigint, limit: number, dc: ReturnType<typeof getDc>, signal: AbortSignal | undefined) {
+    const firstLimit = Math.min(limit, DOWNLOAD_MAX_CHUNK_SIZE - Number(offset % BigInt(DOWNLOAD_MAX_CHUNK_SIZE)));
+    const result = await this.#c.invoke({ _: "upload.getFile", precise: true, location, offset, limit: firstLimit }, { dc, type: "download" });
+    if (firstLimit === limit || !Api.is("upload.file", result) || result.bytes.byteLength < firstLimit) {
+      return result;
+    }
+    signal?.throwIfAborted();
+    const rest = await this.#c.invoke({ _: "upload.getFile", precise: true, location, offset: offset + BigInt(firstLimit), limit: limit - firstLimit }, { dc, type: "download" });
+    return Api.is("upload.file", rest) ? { ...rest, bytes: concat([result.bytes, rest.bytes]) } : rest;
+  }
+
   static validateChunkSize(chunkSize: number, max: number) {
     if (chunkSize <= 0) {
       throw new InputError("chunkSize must be greater than zero.");
-- 
2.43.0


From aa401b82f2299d4fdef143b710d7603f429c1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 42/73] fix: end downloadChunk with the reason it was aborted
 for

---
 client/6_client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 82c93e6..e72902b 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -3675,7 +3675,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     const chunkSize = params?.chunkSize ?? DOWNLOAD_MAX_CHUNK_SIZE;
     params?.signal?.throwIfAborted();
     const controller = new AbortController();
-    const onAbort = () => controller.abort();
+    const onAbort = () => controller.abort(params?.signal?.reason);
     params?.signal?.addEventListener("abort", onAbort);
     const chunks = new Array<Uint8Array>();
     let length = 0;
-- 
2.43.0


From 774a8e5335a2535e9875f2a5e6108bc3246a6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 43/73] fix: transfer the authorization to new keys of other
 data centers before using them

---
 client/0_storage_operations.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 9ebb1ad..733c5f0 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -890,7 +890,7 @@ class StorageAuth extends StorageValue<Auth> {
   override mustGet(): Auth {
     return super.mustGet() ?? {
       apiId: 0,
-      authKey: new Uint8Array(),
+      authKey: null,
       dc: null,
       isBot: false,
       userId: 0,
-- 
2.43.0


From 7a4713a3d6740fb9393f67afcb59df9e9af58958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 44/73] fix: set up every connection to another data center
 once and keep its key

---
 client/0_storage_operations.ts |  7 +++++-
 client/6_client.ts             | 43 ++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 733c5f0..dc0d626 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -144,7 +144,12 @@ export class StorageOperations {
     return this.#storage.supportsFiles;
   }
 
-  async initialize() {
+  #initialization?: Promise<void>;
+  initialize(): Promise<void> {
+    return this.#initialization ??= this.#initialize().finally(() => this.#initialization = undefined);
+  }
+
+  async #initialize() {
     await this.#storage.initialize();
     await this.auth.get();
   }
diff --git a/client/6_client.ts b/client/6_client.ts
index e72902b..3791e75 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -247,7 +247,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   #messageStorage_: Storage;
   public readonly storage: StorageOperations;
   public readonly messageStorage: StorageOperations;
-  #branchStorages = new Set<StorageOperations>();
+  #branchStorages = new Map<string, StorageOperations>();
   #parseMode: ParseMode;
 
   #apiId: number;
@@ -943,7 +943,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       }
     }
     const client = pool.nextClient();
-    if (client.authKey.byteLength) {
+    if (client.authKey.byteLength && !this.#clientSetups.has(client)) {
       return client;
     }
     await this.#setupClient(client);
@@ -995,7 +995,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       }
     }
     const client = pool.nextClient();
-    if (client.authKey.byteLength) {
+    if (client.authKey.byteLength && !this.#clientSetups.has(client)) {
       return client;
     }
     await this.#setupClient(client);
@@ -1013,7 +1013,22 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     return user?.access_hash ?? 0n;
   }
 
-  async #importAuthorization(client: ClientEncrypted) {
+  #authorizationImports = new Map<ClientEncrypted, Promise<void>>();
+  #importAuthorization(client: ClientEncrypted) {
+    return this.#once(this.#authorizationImports, client, () => this.#importAuthorizationInner(client));
+  }
+
+  /** Calls for the same client while one is running share its outcome. */
+  #once(running: Map<ClientEncrypted, Promise<void>>, client: ClientEncrypted, callback: () => Promise<void>) {
+    let promise = running.get(client);
+    if (promise === undefined) {
+      promise = callback().finally(() => running.delete(client));
+      running.set(client, promise);
+    }
+    return promise;
+  }
+
+  async #importAuthorizationInner(client: ClientEncrypted) {
     if (this.#client!.dc === client.dc && this.#client!.isMedia === client.isMedia) {
       const auth = this.storage.auth.mustGet();
       const serverSalt = await this.storage.getServerSalt();
@@ -1068,10 +1083,18 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     }
   }
 
-  async #setupClient(client: ClientEncrypted) {
-    const storage = client.dc === this.#client!.dc ? this.storage : new StorageOperations(this.storage.provider.branch(`${client.dc}${client.isMedia ? "_media" : ""}`));
-    if (storage !== this.storage) {
-      this.#branchStorages.add(storage);
+  #clientSetups = new Map<ClientEncrypted, Promise<void>>();
+  #setupClient(client: ClientEncrypted) {
+    return this.#once(this.#clientSetups, client, () => this.#setupClientInner(client));
+  }
+
+  async #setupClientInner(client: ClientEncrypted) {
+    let storage = this.storage;
+    if (client.dc !== this.#client!.dc) {
+      // what was written to a branch is only visible through the same instance until it is committed
+      const id = `${client.dc}${client.isMedia ? "_media" : ""}`;
+      storage = this.#branchStorages.get(id) ?? new StorageOperations(this.storage.provider.branch(id));
+      this.#branchStorages.set(id, storage);
     }
     await storage.initialize();
     const auth = storage.auth.mustGet();
@@ -1096,7 +1119,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   }
 
   async #resetStorages() {
-    const storages = [this.storage, this.messageStorage, ...this.#branchStorages];
+    const storages = [this.storage, this.messageStorage, ...this.#branchStorages.values()];
     const results = await Promise.allSettled(storages.map(async (storage) => {
       await storage.initialize();
       await storage.reset();
@@ -1193,7 +1216,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     this.#updateManager.closeAllChats();
     await this.storage.commit(true);
     await this.messageStorage.commit(true);
-    await Promise.all([...this.#branchStorages].map(async (storage) => {
+    await Promise.all([...this.#branchStorages.values()].map(async (storage) => {
       await storage.commit(true);
       await storage.close();
     }));
-- 
2.43.0


From 1b2c58a78a2df0b046d4fff4d034c94ee51195a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 45/73] fix: store usernames in lower case, as they are looked
 up

---
 client/2_update_manager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index e73f57e..e352f8f 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -258,12 +258,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(chat);
 
     if ("username" in chat && chat.username) {
-      this.#c.messageStorage.usernames.set([chat.username], [Api.peerToChatId(chat), new Date()]);
+      this.#c.messageStorage.usernames.set([chat.username.toLowerCase()], [Api.peerToChatId(chat), new Date()]);
     }
     if ("usernames" in chat && chat.usernames) {
       const value: [number, Date] = [Api.peerToChatId(chat), new Date()];
       for (const username of chat.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
@@ -332,12 +332,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(user);
 
     if (user.username) {
-      this.#c.messageStorage.usernames.set([user.username], [Api.peerToChatId(user), new Date()]);
+      this.#c.messageStorage.usernames.set([user.username.toLowerCase()], [Api.peerToChatId(user), new Date()]);
     }
     if (user.usernames) {
       const value: [number, Date] = [Api.peerToChatId(user), new Date()];
       for (const username of user.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
-- 
2.43.0


From 814d9d38534e9ffc1e92396a80e081854d7d1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 46/73] fix: keep cached messages when scheduled or business
 messages are deleted

---
 client/6_client.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 3791e75..2b6de06 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -858,7 +858,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           try {
             await this.#handleCtxUpdate(update);
           } finally {
-            if ("deletedMessages" in update) {
+            // Scheduled and business messages have identifiers of their own and are not cached.
+            if ("deletedMessages" in update && !update.isScheduled && !update.businessConnectionId) {
               for (const { chatId, messageId } of update.deletedMessages) {
                 await this.messageStorage.setMessage(chatId, messageId, null);
               }
-- 
2.43.0


From 2140c2a57e2d3f7dfa0ae481838fe57ab17ac900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 47/73] fix: store the signed in account when the result of the
 sign-in was lost, and do not cache its identifier across sign-ins

---
 client/0_storage_operations.ts | 9 +--------
 client/6_client.ts             | 9 +++++++++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index dc0d626..426d0ce 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -203,7 +203,6 @@ export class StorageOperations {
       isBot,
       userId,
     });
-    this.#accountId = userId;
   }
 
   #lastCommit: Date | null = null;
@@ -326,13 +325,8 @@ export class StorageOperations {
     this.peers.set([chatP.id], [chatP, accessHash]);
   }
 
-  #accountId: number | null = null;
   async getAccountId(): Promise<number | null> {
-    if (this.#accountId !== null) {
-      return this.#accountId;
-    } else {
-      return this.#accountId = (await this.auth.get())?.userId ?? null;
-    }
+    return (await this.auth.get())?.userId ?? null;
   }
 
   async setIsPremium(isPremium: boolean) {
@@ -655,7 +649,6 @@ export class StorageOperations {
       for (const value of this.#values) {
         value.reset();
       }
-      this.#accountId = null;
       this.#lastCommit = null;
       unlock();
     }
diff --git a/client/6_client.ts b/client/6_client.ts
index 2b6de06..89f3c64 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -586,6 +586,15 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
+      const auth = this.storage.auth.mustGet();
+      if (auth.userId !== me.id || auth.isBot !== me.isBot) {
+        // The account was signed in to, but the result was not received or stored.
+        await this.storage.auth.update((v) => {
+          v.userId = me.id;
+          v.isBot = me.isBot;
+        });
+        await this.storage.commit(true);
+      }
       await this.#propagateAuthorizationState(true);
       drop(this.#updateManager.recoverUpdateGap("#checkAuthorization"));
       return me;
-- 
2.43.0


From 78b2cf46818df12820ca4746e4475f1fa999f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 48/73] fix: forget the update state and secret chats of an
 account that signs out

---
 client/2_update_manager.ts      | 7 +++++++
 client/3_secret_chat_manager.ts | 5 +++++
 client/6_client.ts              | 2 ++
 3 files changed, 14 insertions(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index e352f8f..5d264d0 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -172,6 +172,13 @@ export class UpdateManager {
     }
   }
 
+  /** Forgets the state of an account that is no longer signed in. */
+  resetState() {
+    this.#state = null;
+    this.#updateState = undefined;
+    this.#defaultDropPendingUpdates = null;
+  }
+
   #fetchStateMutex = new Mutex();
   async fetchState(source: string) {
     const unlock = await this.#fetchStateMutex.lock();
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 0da5fda..0f14e1d 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -54,6 +54,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     this.#L = getLogger("SecretChatManager");
   }
 
+  /** Forgets the secret chats of an account that is no longer signed in. */
+  resetSecretChats() {
+    this.#states.clear();
+  }
+
   async loadSecretChats() {
     let loaded = 0;
     for await (const [k, v] of await this.#c.messageStorage.storage.getMany<SerializedSecretChatState>({ prefix: ["secretChats"] })) {
diff --git a/client/6_client.ts b/client/6_client.ts
index 89f3c64..c255324 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1428,6 +1428,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       this.#updateManager.closeAllChats();
       await this.disconnect();
       await this.#resetStorages();
+      this.#updateManager.resetState();
+      this.#secretChatManager.resetSecretChats();
       await this.connect();
     }
   }
-- 
2.43.0


From 93a715e9d2570fb2261e25e8e51909f7bb95d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 49/73] fix: erase the exponent of a secret chat's first key
 once the key is agreed on

---
 client/3_secret_chat_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 0f14e1d..6bb96df 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -165,7 +165,6 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const state = this.#getSecretChatState(result.id);
     state.g = dhConfig.g;
     state.prime = prime;
-    state.a = a;
     state.pendingExponent = a;
     state.encryptedChat = result;
     await state.commit(this.#c.messageStorage.storage);
@@ -1345,6 +1344,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
           state.authKeyCreatedAt = Date.now();
           state.authKeyUseCount = 0;
           state.isAuthKeyUsed = false;
+          state.a = 0n;
           state.pendingExponent = 0n;
         }
       }
-- 
2.43.0


From ab17ebfb29f64f752176add008ff6ba64d5d833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 50/73] fix: do not use a secret chat whose key was not agreed
 on

---
 client/3_secret_chat_manager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 6bb96df..c60c604 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1346,6 +1346,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
           state.isAuthKeyUsed = false;
           state.a = 0n;
           state.pendingExponent = 0n;
+        } else if (!Api.is("encryptedChat", state.encryptedChat) && (state.authKey.byteLength === 0 || state.authKeyId !== update.chat.key_fingerprint)) {
+          this.#L.debug("ignoring secret chat", update.chat.id, "because its key is not known");
+          return null;
         }
       }
 
-- 
2.43.0


From 5acfa59ad534cfea8a12cde6e119fd2a1506ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 51/73] fix: give an accepted secret chat re-key up when the
 other party aborts it

---
 client/3_secret_chat_manager.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index c60c604..60879d6 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1086,6 +1086,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.rekeyA = 0n;
   }
 
+  #clearAcceptedRekey(state: SecretChatState) {
+    state.toCommitId = 0n;
+    state.toCommitAuthKey = new Uint8Array();
+    state.toCommitAuthKeyId = 0n;
+    state.toCommitAuthKeyId_ = new Uint8Array();
+  }
+
   async #processDecryptedMessageActionAcceptKey(chatId: number, action_: SecretChats.decryptedMessageActionAcceptKey) {
     const state = this.#getSecretChatState(chatId);
     if (state.rekeyId !== action_.exchange_id || !Api.is("encryptedChat", state.encryptedChat)) {
@@ -1230,6 +1237,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         if (state.rekeyId === message.action.exchange_id) {
           this.#clearInitiatedRekey(state);
         }
+        if (state.toCommitId === message.action.exchange_id) {
+          this.#clearAcceptedRekey(state);
+        }
         break;
       }
     }
-- 
2.43.0


From d61ee5c611141ed1b046b23290304b066a292bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 52/73] fix: keep the state of a secret chat re-key whose
 message could not be sent, as it is sent again on request

---
 client/3_secret_chat_manager.ts | 45 ++++++++++++---------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 60879d6..538868f 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1120,9 +1120,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    const previousAuthKey = state.authKey;
+    const previousAuthKeyId_ = state.authKeyId_;
     this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
     this.#clearInitiatedRekey(state);
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, previousAuthKey, previousAuthKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
@@ -1180,16 +1182,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    } catch (err) {
-      state.toCommitId = 0n;
-      state.toCommitAuthKey = new Uint8Array();
-      state.toCommitAuthKeyId = 0n;
-      state.toCommitAuthKeyId_ = new Uint8Array();
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1396,24 +1389,18 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    try {
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id,
-          action,
-        },
-        encryptedChat,
-        authKey,
-        authKeyId,
-        undefined,
-        true,
-      );
-    } catch (err) {
-      this.#clearInitiatedRekey(state);
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    await this.#sendMessage(
+      {
+        _: "decryptedMessageService",
+        random_id,
+        action,
+      },
+      encryptedChat,
+      authKey,
+      authKeyId,
+      undefined,
+      true,
+    );
   }
 
   async #maybeStartRekey(state: SecretChatState) {
-- 
2.43.0


From 759be4c2ed31856d3897b325e7deb5954d6f7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 53/73] fix: go on with the messages that wait in a secret chat
 when an automated answer to one fails

---
 client/3_secret_chat_manager.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 538868f..1f336ef 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -983,7 +983,14 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
       ++state.inSeqNo;
-      await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      try {
+        await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      } catch (err) {
+        if (!Api.is("encryptedChat", state.encryptedChat)) {
+          throw err;
+        }
+        this.#L.error("failed to handle secret chat message:", err);
+      }
     };
     await handle(message, encryptedMessage);
     while (true) {
-- 
2.43.0


From 2bec0ab869b880d006b47921c9fee8ecfdd00f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 54/73] fix: ask again for missing secret chat messages when
 they do not arrive, and go on with waiting ones

---
 client/0_secret_chat_state.ts   |  1 +
 client/3_secret_chat_manager.ts | 70 ++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index 0e59e08..f1f1238 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -101,6 +101,7 @@ export class SecretChatState {
   remoteInSeqNo = 0;
 
   isGapRequested = false;
+  gapRequestedAt = 0;
   gapEndSeqNo = -1;
   pendingMessages = new Array<[SecretChats.decryptedMessageLayer, Api.EncryptedMessage]>();
   outgoingMessages = new LruCache<number, OutgoingMessage>(1_000);
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 1f336ef..a71744f 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -18,7 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { concat, equals, ige256Decrypt, ige256Encrypt, unreachable, WEEK } from "../0_deps.ts";
+import { concat, equals, ige256Decrypt, ige256Encrypt, SECOND, unreachable, WEEK } from "../0_deps.ts";
 import { InputError } from "../0_errors.ts";
 import { getLogger, getRandomId, getRandomInt, intFromBytes, intToBytes, type Logger, mod, modExp, sha1, sha256 } from "../1_utilities.ts";
 import { Api, repr, SecretChats, TLReader, TLWriter, X } from "../2_tl.ts";
@@ -43,6 +43,8 @@ const secretChatManagerUpdates = [
   "updateEncryptedChatTyping",
 ] as const;
 
+const GAP_REQUEST_TIMEOUT = 10 * SECOND;
+
 type SecretChatManagerUpdate = Api.Types[(typeof secretChatManagerUpdates)[number]];
 
 export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdate, true> {
@@ -944,34 +946,6 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (!alreadyPending && SecretChats.is("decryptedMessageService", message.message) && SecretChats.is("decryptedMessageActionResend", message.message.action)) {
       await this.#resendMessages(state, message.message.action, isCreator);
     }
-    if (outSeqNo > state.inSeqNo) { // gap
-      if (!state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no)) {
-        state.pendingMessages.push([message, encryptedMessage]);
-      }
-      if (state.isGapRequested) {
-        return;
-      }
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id: getRandomId(),
-          action: {
-            _: "decryptedMessageActionResend",
-            start_seq_no: state.inSeqNo * 2 + x,
-            end_seq_no: message.out_seq_no - 2,
-          },
-        },
-        state.encryptedChat,
-        state.authKey,
-        state.authKeyId_,
-        undefined,
-        true,
-      );
-      state.isGapRequested = true;
-      state.gapEndSeqNo = outSeqNo - 1;
-      return;
-    }
-
     const handle = async (message: SecretChats.decryptedMessageLayer, encryptedMessage: Api.EncryptedMessage) => {
       const inSeqNo = (message.in_seq_no - inX) / 2;
       const isJustLoaded = state.isJustLoaded;
@@ -992,7 +966,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         this.#L.error("failed to handle secret chat message:", err);
       }
     };
-    await handle(message, encryptedMessage);
+    if (outSeqNo === state.inSeqNo) {
+      await handle(message, encryptedMessage);
+    } else if (!alreadyPending) {
+      state.pendingMessages.push([message, encryptedMessage]);
+    }
     while (true) {
       const index = state.pendingMessages.findIndex((v) => (v[0].out_seq_no - x) / 2 === state.inSeqNo);
       if (index === -1) {
@@ -1001,14 +979,36 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       const [pendingMessage] = state.pendingMessages.splice(index, 1);
       await handle(pendingMessage[0], pendingMessage[1]);
     }
-    if (state.pendingMessages.length === 0) {
+    state.pendingMessages = state.pendingMessages.filter((v) => (v[0].out_seq_no - x) / 2 > state.inSeqNo);
+    if (state.pendingMessages.length === 0 || state.inSeqNo > state.gapEndSeqNo) {
       state.isGapRequested = false;
       state.gapEndSeqNo = -1;
-    } else if (state.inSeqNo > state.gapEndSeqNo) {
-      state.isGapRequested = false;
-      const next = state.pendingMessages.reduce((a, b) => a[0].out_seq_no < b[0].out_seq_no ? a : b);
-      await this.#checkGap(chatId, next[0], next[1]);
     }
+    if (state.pendingMessages.length === 0 || state.isGapRequested && Date.now() - state.gapRequestedAt < GAP_REQUEST_TIMEOUT) {
+      return;
+    }
+
+    // gap
+    const gapEndSeqNo = Math.min(...state.pendingMessages.map((v) => (v[0].out_seq_no - x) / 2)) - 1;
+    await this.#sendMessage(
+      {
+        _: "decryptedMessageService",
+        random_id: getRandomId(),
+        action: {
+          _: "decryptedMessageActionResend",
+          start_seq_no: state.inSeqNo * 2 + x,
+          end_seq_no: gapEndSeqNo * 2 + x,
+        },
+      },
+      state.encryptedChat,
+      state.authKey,
+      state.authKeyId_,
+      undefined,
+      true,
+    );
+    state.isGapRequested = true;
+    state.gapRequestedAt = Date.now();
+    state.gapEndSeqNo = gapEndSeqNo;
   }
 
   async #resendMessages(state: SecretChatState, action: SecretChats.decryptedMessageActionResend, isCreator: boolean) {
-- 
2.43.0


From 0734fee592dc0016f7f3373fa4a1c81854176dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 55/73] fix: store the state of a secret chat before a message
 that uses it leaves

---
 client/3_secret_chat_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index a71744f..d6e5b4b 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -803,6 +803,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    await state.commit(this.#c.messageStorage.storage);
     if (file) {
       const result = await this.#c.invoke({
         _: "messages.sendEncryptedFile",
-- 
2.43.0


From cd992a8464d259abb620fb82f0dddff87a1c3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 56/73] fix: end a secret chat for the client even if telling
 the service fails

---
 client/3_secret_chat_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index d6e5b4b..524a17a 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -291,9 +291,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   }
 
   async #discardSecretChat(state: SecretChatState, chatId: number) {
-    await this.#c.invoke({ _: "messages.discardEncryption", chat_id: chatId });
     state.encryptedChat = { _: "encryptedChatDiscarded", id: chatId };
     await state.commit(this.#c.messageStorage.storage);
+    await this.#c.invoke({ _: "messages.discardEncryption", chat_id: chatId });
   }
 
   #getNextOutSeqNo(id: number, isCreator: boolean) {
-- 
2.43.0


From 71232a6f01850285ddee007108e139beb270f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 57/73] fix: store the key of a secret chat before accepting it

---
 client/3_secret_chat_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 524a17a..3f06901 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -264,6 +264,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     const peer: Api.inputEncryptedChat = { _: "inputEncryptedChat", chat_id: state.encryptedChat.id, access_hash: state.encryptedChat.access_hash };
 
+    await state.commit(this.#c.messageStorage.storage);
     const result = await this.#c.invoke({
       _: "messages.acceptEncryption",
       peer,
-- 
2.43.0


From 1bb98b8e719bb6e2728b04ca9d328bf23370a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 58/73] fix: do not store a secret chat's state while it is
 being changed, and deliver messages after it was stored

---
 client/0_secret_chat_state.ts   |   2 +
 client/3_secret_chat_manager.ts | 102 +++++++++++++++++++-------------
 2 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index f1f1238..0c6e03e 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -21,6 +21,7 @@
 import { LruCache } from "../0_deps.ts";
 import type { Storage } from "../2_storage.ts";
 import { Api, type SecretChats } from "../2_tl.ts";
+import type { SecretMessage } from "../3_types.ts";
 
 export interface SerializedSecretChatState {
   encryptedChat: Api.EncryptedChat;
@@ -69,6 +70,7 @@ export interface OutgoingMessage {
 
 export class SecretChatState {
   isJustLoaded = false;
+  receivedMessages = new Array<SecretMessage>();
   encryptedChat: Api.EncryptedChat = { _: "encryptedChatEmpty", id: 0 };
 
   authKey = new Uint8Array();
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 3f06901..ef42669 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -321,7 +321,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   async #postSendMessage(state: SecretChatState) {
     state.isJustLoaded = false;
     try {
-      await this.#maybeStartRekey(state);
+      await this.#lock(state.encryptedChat.id, () => this.#maybeStartRekey(state));
     } catch (err) {
       this.#L.error("failed to start secret chat re-key:", err);
     }
@@ -344,7 +344,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       via_bot_name: params?.viaBot,
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_);
+    await this.#sendMessage(decryptedMessage, id);
     await this.#postSendMessage(state);
   }
 
@@ -364,7 +364,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       media: { _: "decryptedMessageMediaGeoPoint", lat: latitude, long: longitude },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_);
+    await this.#sendMessage(decryptedMessage, id);
     await this.#postSendMessage(state);
   }
 
@@ -384,7 +384,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       media: { _: "decryptedMessageMediaVenue", lat: latitude, long: longitude, title, address, provider: "foursquare", venue_id: params?.foursquareId ?? "" },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_);
+    await this.#sendMessage(decryptedMessage, id);
     await this.#postSendMessage(state);
   }
 
@@ -404,7 +404,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       media: { _: "decryptedMessageMediaContact", first_name: firstName, last_name: params?.lastName ?? "", phone_number: phoneNumber, user_id: 0 },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_);
+    await this.#sendMessage(decryptedMessage, id);
     await this.#postSendMessage(state);
   }
 
@@ -447,7 +447,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -487,7 +487,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -527,7 +527,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -567,7 +567,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -607,7 +607,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -648,7 +648,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -666,7 +666,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       random_id,
     };
 
-    await this.#sendMessage(decryptedMessageService, state.encryptedChat, state.authKey, state.authKeyId_);
+    await this.#sendMessage(decryptedMessageService, id);
     await this.#postSendMessage(state);
   }
 
@@ -703,7 +703,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       },
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -748,7 +748,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       media,
     };
 
-    await this.#sendMessage(decryptedMessage, state.encryptedChat, state.authKey, state.authKeyId_, inputEncryptedFile);
+    await this.#sendMessage(decryptedMessage, id, inputEncryptedFile);
     await this.#postSendMessage(state);
   }
 
@@ -766,32 +766,40 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     await this.#c.invoke({ _: "messages.setEncryptedTyping", peer, typing: false });
   }
 
-  #sendTails = new Map<number, Promise<void>>();
-  async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false) {
-    try {
-      await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService);
-    } finally {
-      await this.#getSecretChatState(encryptedChat.id).commit(this.#c.messageStorage.storage);
-    }
-  }
-
-  async #sendMessageInner(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean) {
-    const previous = this.#sendTails.get(encryptedChat.id) ?? Promise.resolve();
+  #tails = new Map<number, Promise<void>>();
+  /** Ensures that the state of a secret chat is never stored while it is being changed. */
+  async #lock<T>(chatId: number, callback: () => Promise<T>): Promise<T> {
+    const previous = this.#tails.get(chatId) ?? Promise.resolve();
     const { promise, resolve } = Promise.withResolvers<void>();
     const tail = previous.then(() => promise);
-    this.#sendTails.set(encryptedChat.id, tail);
+    this.#tails.set(chatId, tail);
     await previous;
     try {
-      await this.#sendMessageUnlocked(message, encryptedChat, authKey, authKeyId, file, isService);
+      return await callback();
     } finally {
       resolve();
-      if (this.#sendTails.get(encryptedChat.id) === tail) {
-        this.#sendTails.delete(encryptedChat.id);
+      if (this.#tails.get(chatId) === tail) {
+        this.#tails.delete(chatId);
       }
     }
   }
 
+  async #sendMessage(message: SecretChats.DecryptedMessage, chatId: number, file?: Api.InputEncryptedFile) {
+    await this.#lock(chatId, async () => {
+      const state = this.#mustGetEncryptedChat(chatId);
+      await this.#sendMessageUnlocked(message, state.encryptedChat, state.authKey, state.authKeyId_, file, false);
+    });
+  }
+
   async #sendMessageUnlocked(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean) {
+    try {
+      await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService);
+    } finally {
+      await this.#getSecretChatState(encryptedChat.id).commit(this.#c.messageStorage.storage);
+    }
+  }
+
+  async #sendMessageInner(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean) {
     const isCreator = Number(encryptedChat.admin_id) === await this.#c.getSelfId();
     const out_seq_no = this.#getNextOutSeqNo(encryptedChat.id, isCreator);
     const in_seq_no = this.#getInSeqNo(encryptedChat.id, isCreator);
@@ -992,7 +1000,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     // gap
     const gapEndSeqNo = Math.min(...state.pendingMessages.map((v) => (v[0].out_seq_no - x) / 2)) - 1;
-    await this.#sendMessage(
+    await this.#sendMessageUnlocked(
       {
         _: "decryptedMessageService",
         random_id: getRandomId(),
@@ -1087,7 +1095,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       return;
     }
     const action: SecretChats.decryptedMessageActionAbortKey = { _: "decryptedMessageActionAbortKey", exchange_id: exchangeId };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id: getRandomId(), action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    await this.#sendMessageUnlocked({ _: "decryptedMessageService", random_id: getRandomId(), action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   #clearInitiatedRekey(state: SecretChatState) {
@@ -1133,7 +1141,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const previousAuthKeyId_ = state.authKeyId_;
     this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
     this.#clearInitiatedRekey(state);
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, previousAuthKey, previousAuthKeyId_, undefined, true);
+    await this.#sendMessageUnlocked({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, previousAuthKey, previousAuthKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
@@ -1191,7 +1199,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    await this.#sendMessageUnlocked({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1210,14 +1218,14 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKeyId = 0n;
     state.toCommitAuthKeyId_ = new Uint8Array();
     const noop: SecretChats.decryptedMessageActionNoop = { _: "decryptedMessageActionNoop" };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id: getRandomId(), action: noop }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    await this.#sendMessageUnlocked({ _: "decryptedMessageService", random_id: getRandomId(), action: noop }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #handleDecryptedMessageLayer(chatId: number, decryptedMessageLayer: SecretChats.decryptedMessageLayer, encryptedMessage: Api.EncryptedMessage) {
     const state = this.#getSecretChatState(chatId);
     if (SecretChats.is("decryptedMessage", decryptedMessageLayer.message)) {
       const secretMessage = constructSecretMessage(state.encryptedChat.id, decryptedMessageLayer.message, encryptedMessage);
-      this.#c.handleUpdate({ type: "secretMessage", secretMessage });
+      state.receivedMessages.push(secretMessage);
     } else if (SecretChats.is("decryptedMessageService", decryptedMessageLayer.message)) {
       await this.#processServiceMessage(state.encryptedChat.id, decryptedMessageLayer.message);
     }
@@ -1248,11 +1256,21 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   }
 
   async #processUpdateNewMessageEncrypted(update: Api.updateNewEncryptedMessage): Promise<Update | null> {
-    try {
-      return await this.#processUpdateNewMessageEncryptedInner(update);
-    } finally {
-      await this.#getSecretChatState(update.message.chat_id).commit(this.#c.messageStorage.storage);
-    }
+    const chatId = update.message.chat_id;
+    return await this.#lock(chatId, async () => {
+      try {
+        return await this.#processUpdateNewMessageEncryptedInner(update);
+      } finally {
+        try {
+          await this.#getSecretChatState(chatId).commit(this.#c.messageStorage.storage);
+        } finally {
+          // must come after the commit to not be repeated by the next process
+          for (const secretMessage of this.#getSecretChatState(chatId).receivedMessages.splice(0)) {
+            this.#c.handleUpdate({ type: "secretMessage", secretMessage });
+          }
+        }
+      }
+    });
   }
 
   async #processUpdateNewMessageEncryptedInner(update: Api.updateNewEncryptedMessage): Promise<Update | null> {
@@ -1296,7 +1314,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       await this.#checkGap(state.encryptedChat.id, decryptedMessage, update.message);
       if (pendingKey && Api.is("encryptedChat", state.encryptedChat)) {
         const noop: SecretChats.decryptedMessageActionNoop = { _: "decryptedMessageActionNoop" };
-        await this.#sendMessage({ _: "decryptedMessageService", random_id: getRandomId(), action: noop }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+        await this.#sendMessageUnlocked({ _: "decryptedMessageService", random_id: getRandomId(), action: noop }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
       }
       if (state.previousAuthKeyDiscardAfterSeqNo >= 0 && state.inSeqNo > state.previousAuthKeyDiscardAfterSeqNo) {
         this.#clearPreviousKey(state);
@@ -1398,7 +1416,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    await this.#sendMessage(
+    await this.#sendMessageUnlocked(
       {
         _: "decryptedMessageService",
         random_id,
-- 
2.43.0


From 317ba32a54279874a0be4f11c6cabaf8e33ce8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 59/73] fix: do not revive a secret chat that was ended

---
 client/3_secret_chat_manager.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index ef42669..83c98b3 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1347,6 +1347,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       }
     } else {
       const state = this.#getSecretChatState(update.chat.id);
+      if (Api.is("encryptedChatDiscarded", state.encryptedChat)) {
+        this.#L.debug("ignoring an update on secret chat", update.chat.id, "because it has ended");
+        return null;
+      }
       if (Api.is("encryptedChat", update.chat)) {
         const pending = state.pendingExponent;
         if (pending !== 0n) {
-- 
2.43.0


From f72eae7d43e8fb0ffc740370bdbc08d2b5836456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 60/73] fix: use the latest version of a poll carried by a
 message

---
 client/0_storage_operations.ts | 10 ++++++++++
 client/2_update_manager.ts     |  3 +++
 client/3_message_manager.ts    | 20 +++++++++-----------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 426d0ce..15a3c9f 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -674,6 +674,16 @@ export class StorageOperations {
     return await this.getTlObject(K.cache.poll(pollId)) as Api.poll | null;
   }
 
+  async setPollMedia(media: Api.messageMediaPoll, isCached = false) {
+    const { poll, results } = media;
+    if (!isCached || await this.getPoll(poll.id) === null) {
+      await this.setPoll(poll.id, poll);
+    }
+    if (!isCached && !results.min || await this.getPollResults(poll.id) === null) {
+      await this.setPollResults(poll.id, results);
+    }
+  }
+
   async deletePolls() {
     await this.#deleteByPrefix(K.cache.polls());
   }
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 5d264d0..02a9199 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -313,6 +313,9 @@ export class UpdateManager {
         for (const message of result.messages) {
           if (Api.is("message", message) || Api.is("messageService", message)) {
             await this.#c.messageStorage.setMessage(Api.peerToChatId(message.peer_id), message.id, message);
+            if ("media" in message && Api.is("messageMediaPoll", message.media)) {
+              await this.#c.messageStorage.setPollMedia(message.media);
+            }
           }
         }
       }
diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 6029a45..ccac309 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -111,7 +111,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       if (Api.is("messageEmpty", message_)) {
         continue;
       }
-      const message = await this.constructMessage(message_);
+      const message = await this.constructMessage(message_, undefined, undefined, undefined, !shouldFetch);
       if (message.chat.id === chatId_) {
         messages.push(message);
       }
@@ -244,22 +244,17 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     return messages;
   }
 
-  async constructMessage(message_: Api.Message | Api.EphemeralMessage, r?: boolean, business?: { connectionId: string; replyToMessage?: Api.Message }, messageGetter?: MessageGetter): Promise<Message> {
+  async constructMessage(message_: Api.Message | Api.EphemeralMessage, r?: boolean, business?: { connectionId: string; replyToMessage?: Api.Message }, messageGetter?: MessageGetter, isCached = false): Promise<Message> {
     const mediaPoll = "media" in message_ && Api.is("messageMediaPoll", message_.media) ? message_.media : null;
     const pollId = mediaPoll?.poll.id;
     let poll: Api.poll | null = null;
     let pollResults: Api.pollResults | null = null;
-    if (pollId) {
+    if (mediaPoll && pollId) {
+      // a cached message might be older than what was stored for its poll
+      await this.#c.messageStorage.setPollMedia(mediaPoll, isCached);
       [poll, pollResults] = await Promise.all([this.#c.messageStorage.getPoll(pollId), this.#c.messageStorage.getPollResults(pollId)]);
     }
-    const message = await constructMessage_(message_, this.#c.getPeer, messageGetter ?? this.getMessage.bind(this), this.#c.fileManager.getStickerSetName.bind(this.#c.fileManager), this.#c.getCommunity, r, business, poll ?? undefined, pollResults ?? undefined);
-    if (!poll && mediaPoll) {
-      await this.#c.messageStorage.setPoll(mediaPoll.poll.id, mediaPoll.poll);
-    }
-    if (!pollResults && mediaPoll) {
-      await this.#c.messageStorage.setPollResults(mediaPoll.poll.id, mediaPoll.results);
-    }
-    return message;
+    return await constructMessage_(message_, this.#c.getPeer, messageGetter ?? this.getMessage.bind(this), this.#c.fileManager.getStickerSetName.bind(this.#c.fileManager), this.#c.getCommunity, r, business, poll ?? undefined, pollResults ?? undefined);
   }
 
   async forwardMessages(from: ID, to: ID, messageIds: number[], params?: ForwardMessagesParams): Promise<Message[]> {
@@ -2210,6 +2205,9 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       if (Api.is("message", update.message) || Api.is("messageService", update.message)) {
         const chatId = Api.peerToChatId(update.message.peer_id);
         await this.#c.messageStorage.setMessage(chatId, update.message.id, update.message);
+        if ("media" in update.message && Api.is("messageMediaPoll", update.message.media)) {
+          await this.#c.messageStorage.setPollMedia(update.message.media);
+        }
       }
     }
 
-- 
2.43.0


From 21a7c8cd2b35145887e077ed39cc9cb189c5d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 61/73] fix: let user shortcuts of a callback query act on the
 person who pressed the button

---
 client/4_context.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index fc1aeb1..410f0d1 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -277,10 +277,10 @@ export class Context {
   }
 
   #mustGetUserId() {
-    if (this.msg?.from) {
-      return this.msg.from.id;
-    } else if (this.update.type === "callbackQuery") {
+    if (this.update.type === "callbackQuery") {
       return this.update.callbackQuery.from.id;
+    } else if (this.msg?.from) {
+      return this.msg.from.id;
     } else if (this.update.type === "chosenInlineResult") {
       return this.update.chosenInlineResult.from.id;
     } else if (this.update.type === "joinRequest") {
-- 
2.43.0


From 872956b49adc2b18d0bd9f57fc5d25b4ae8933a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 62/73] fix: keep replies to the message of a callback or guest
 query in its topic

---
 client/4_context.ts | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index 410f0d1..3fe8e61 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -317,22 +317,8 @@ export class Context {
       return { receiverId, replyTo: this.msg?.isOutgoing ? undefined : { type: "ephemeralMessage", messageId }, callbackQueryId: this.callbackQuery?.id };
     }
 
-    let messageThreadId = undefined;
-    let directMessagesTopicId = undefined;
-    switch (this.update.type) {
-      case "message":
-        messageThreadId = this.update.message.threadId;
-        directMessagesTopicId = this.update.message.directMessagesTopicId;
-        break;
-      case "editedMessage":
-        messageThreadId = this.update.editedMessage.threadId;
-        directMessagesTopicId = this.update.editedMessage.directMessagesTopicId;
-        break;
-      case "scheduledMessage":
-        messageThreadId = this.update.scheduledMessage.threadId;
-        directMessagesTopicId = this.update.scheduledMessage.directMessagesTopicId;
-        break;
-    }
+    const messageThreadId = this.msg?.threadId;
+    const directMessagesTopicId = this.msg?.directMessagesTopicId;
 
     const isPrivate = chatId > 0;
     const shouldQuote = isQuoted === undefined ? !isPrivate : isQuoted;
-- 
2.43.0


From 7eb004df6bd3a30b268cb433a855db3e6d7e8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 63/73] fix: key cached custom emoji sets by the identifier of
 the returned document

---
 client/2_file_manager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index f6fdcb2..ff27976 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -762,7 +762,7 @@ export class FileManager {
     }
     stickers = [];
     const documents_ = (await this.#c.invoke({ _: "messages.getCustomEmojiDocuments", document_id: id.map(BigInt) })).map((v) => Api.as("document", v));
-    for (const [i, document_] of documents_.entries()) {
+    for (const document_ of documents_) {
       await this.#c.messageStorage.setCustomEmojiDocument(document_.id, document_);
       const fileId_: FileId = {
         type: FileType.Document,
@@ -772,7 +772,7 @@ export class FileManager {
       };
       const fileUniqueId = toUniqueFileId(fileId_);
       const fileId = serializeFileId(fileId_);
-      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), id[i]);
+      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), String(document_.id));
       stickers.push(sticker);
     }
     return stickers;
-- 
2.43.0


From 341df659115f53f759f453feb383192f4768d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 64/73] fix: do not keep stale plural forms of a replaced
 translation

---
 client/2_translations_manager.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/2_translations_manager.ts b/client/2_translations_manager.ts
index dc43c35..c2513f9 100644
--- a/client/2_translations_manager.ts
+++ b/client/2_translations_manager.ts
@@ -132,9 +132,9 @@ export class TranslationsManager implements UpdateProcessor<TranslationsManagerU
         translations = translations.filter((v) => v.key !== string.key);
       } else {
         const newTranslation = constructTranslation(string);
-        const currentTranslation = translations.find((v) => v.key === string.key);
-        if (currentTranslation) {
-          Object.assign(currentTranslation, newTranslation);
+        const index = translations.findIndex((v) => v.key === string.key);
+        if (index !== -1) {
+          translations[index] = newTranslation;
         } else {
           translations.push(newTranslation);
         }
-- 
2.43.0


From ffe64a9db91b836c8c6e96f8138ce31cb8289182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 65/73] fix: drop the cached full chat of a group when its
 participants change

---
 client/4_chat_list_manager.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/4_chat_list_manager.ts b/client/4_chat_list_manager.ts
index a766fa9..0a8c5a4 100644
--- a/client/4_chat_list_manager.ts
+++ b/client/4_chat_list_manager.ts
@@ -34,6 +34,10 @@ type C = C_ & { fileManager: FileManager; messageManager: MessageManager };
 const chatListManagerUpdates = [
   "updateChannel",
   "updateChat",
+  "updateChatParticipants",
+  "updateChatParticipantAdd",
+  "updateChatParticipantDelete",
+  "updateChatParticipantAdmin",
   "updateUser",
   "updateUserName",
 ] as const;
@@ -53,8 +57,8 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
     await this.#c.messageStorage.setFullChat(chatId, null);
   }
 
-  async #handleUpdateChat(update: Api.updateChat) { // TODO: handle deactivated (migration)
-    const peer: Api.peerChat = { ...update, _: "peerChat" };
+  async #handleUpdateChat(update: Api.updateChat | Api.updateChatParticipantAdd | Api.updateChatParticipantDelete | Api.updateChatParticipantAdmin | Api.ChatParticipants) { // TODO: handle deactivated (migration)
+    const peer: Api.peerChat = { _: "peerChat", chat_id: update.chat_id };
     const chatId = Api.peerToChatId(peer);
     await this.#c.messageStorage.setFullChat(chatId, null);
   }
@@ -102,7 +106,9 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
   async handleUpdate(update: ChatListManagerUpdate): Promise<null> {
     if (Api.is("updateChannel", update)) {
       await this.#handleUpdateChannel(update);
-    } else if (Api.is("updateChat", update)) {
+    } else if (Api.is("updateChatParticipants", update)) {
+      await this.#handleUpdateChat(update.participants);
+    } else if (Api.isOneOf(["updateChat", "updateChatParticipantAdd", "updateChatParticipantDelete", "updateChatParticipantAdmin"], update)) {
       await this.#handleUpdateChat(update);
     } else if (Api.is("updateUser", update) || Api.is("updateUserName", update)) {
       await this.#handleUpdateUser(update);
-- 
2.43.0


From e1d70b64ed9f2a22d1ee53db3a3328b0921ead7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 66/73] fix: load the peers that a story's privacy and areas
 refer to

---
 client/4_story_manager.ts | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/client/4_story_manager.ts b/client/4_story_manager.ts
index 22024a8..35582bb 100644
--- a/client/4_story_manager.ts
+++ b/client/4_story_manager.ts
@@ -75,6 +75,27 @@ export class StoryManager implements UpdateProcessor<StoryManagerUpdate> {
     });
   }
 
+  /** Loads the peers that the privacy and the interactive areas of a story refer to. */
+  async #loadPeers(params?: Pick<CreateStoryParams, "privacy" | "interactiveAreas">) {
+    const ids = new Array<number>();
+    if (params?.privacy) {
+      if ("except" in params.privacy) {
+        ids.push(...params.privacy.except);
+      }
+      if ("only" in params.privacy) {
+        ids.push(...params.privacy.only);
+      }
+    }
+    for (const area of params?.interactiveAreas ?? []) {
+      if (area.type === "messageReference") {
+        ids.push(area.messageReference.chatId);
+      }
+    }
+    for (const id of ids) {
+      await this.#c.getInputPeer(id);
+    }
+  }
+
   async createStory(chatId: ID, content: InputStoryContent, params?: CreateStoryParams): Promise<Story> {
     this.#c.storage.assertUser("createStory");
     let media: Api.InputMedia | null = null;
@@ -122,6 +143,7 @@ export class StoryManager implements UpdateProcessor<StoryManagerUpdate> {
     const caption = parseResult === undefined ? undefined : parseResult[0];
     const entities = parseResult === undefined ? undefined : parseResult[1];
     const peer = await this.#c.getInputPeer(chatId);
+    await this.#loadPeers(params);
     const random_id = getRandomId();
     const privacy_rules = storyPrivacyToTlObject(params?.privacy ?? { type: "everyone", except: [] }, this.#c.getPeer);
     const media_areas = new Array<Api.MediaArea>();
@@ -214,6 +236,7 @@ export class StoryManager implements UpdateProcessor<StoryManagerUpdate> {
     const caption = parseResult === undefined ? undefined : parseResult[0];
     const entities = parseResult === undefined ? undefined : parseResult[1] ?? [];
     const peer = await this.#c.getInputPeer(chatId);
+    await this.#loadPeers(params);
     const privacy_rules = params?.privacy ? storyPrivacyToTlObject(params.privacy, this.#c.getPeer) : undefined;
     let media_areas: Api.MediaArea[] | undefined;
 
-- 
2.43.0


From f0a047381b94b50e7c67e8f2fa8cde66423e21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 67/73] fix: send poll explanations without entities

---
 client/3_message_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index ccac309..f6e88f6 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -1270,7 +1270,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       poll,
       correct_answers: params?.correctOptionIndexes,
       solution,
-      solution_entities: solutionEntities,
+      solution_entities: solution !== undefined ? solutionEntities ?? [] : undefined,
       solution_media: params?.explanationMedia ? await this.resolvePollMedia(peer, params.explanationMedia) : undefined,
       attached_media: params?.media ? await this.resolvePollMedia(peer, params.media) : undefined,
     };
-- 
2.43.0


From 7a7386e01a4e254f329ac94d0ebf9595131bb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 68/73] fix: send invoices with a maximum tip and no suggested
 tips

---
 client/3_message_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index f6e88f6..0fd65c6 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -2529,7 +2529,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       currency,
       prices: prices.map((v) => ({ _: "labeledPrice", label: v.label, amount: BigInt(v.amount) })),
       max_tip_amount: params?.maxTipAmount ? BigInt(params.maxTipAmount) : undefined,
-      suggested_tip_amounts: params?.suggestedTipAmounts?.map(BigInt),
+      suggested_tip_amounts: params?.suggestedTipAmounts?.map(BigInt) ?? (params?.maxTipAmount ? [] : undefined),
       name_requested: params?.isNameNeeded || undefined,
       phone_requested: params?.isPhoneNumberNeeded || undefined,
       email_requested: params?.isEmailNeeded || undefined,
-- 
2.43.0


From 99ed7ce540de87988c082c55b53c665ee939265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 69/73] fix: keep the spoiler of poll media

---
 client/3_message_manager.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 0fd65c6..e957109 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -1309,9 +1309,9 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       case "photo":
         return await this.#getInputMediaPhoto(peer, media.photo, media);
       case "video":
-        return this.#getInputMediaDocument(await this.#uploadVideo(peer, media.video, media));
+        return this.#getInputMediaDocument(await this.#uploadVideo(peer, media.video, media), media.isSpoiler);
       case "animation":
-        return this.#getInputMediaDocument(await this.#uploadAnimation(peer, media.animation, media));
+        return this.#getInputMediaDocument(await this.#uploadAnimation(peer, media.animation, media), media.isSpoiler);
       case "sticker":
         return this.#getInputMediaDocument(await this.#uploadSticker(peer, media.sticker, media));
 
@@ -1790,6 +1790,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     return {
       _: "inputMediaPhoto",
       id: { _: "inputPhoto", id: photo_.id, access_hash: photo_.access_hash, file_reference: photo_.file_reference },
+      spoiler: params?.isSpoiler || undefined,
       live_photo: !!messageMediaPhoto.video || undefined,
       video: Api.is("document", messageMediaPhoto.video) ? { _: "inputDocument", id: messageMediaPhoto.video.id, access_hash: messageMediaPhoto.video.access_hash, file_reference: messageMediaPhoto.video.file_reference } : undefined,
     };
@@ -1852,9 +1853,10 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     return Api.as("messageMediaDocument", uploadedMedia);
   }
 
-  #getInputMediaDocument(input: Api.inputDocument): Api.inputMediaDocument {
+  #getInputMediaDocument(input: Api.inputDocument, isSpoiler?: boolean): Api.inputMediaDocument {
     return {
       _: "inputMediaDocument",
+      spoiler: isSpoiler || undefined,
       id: {
         ...input,
         _: "inputDocument",
-- 
2.43.0


From 746bce9c549efe4d045de9dc2a063842b3f0f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 70/73] fix: load a basic group that is referred to by its
 identifier

---
 client/6_client.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index c255324..e5dd092 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -666,6 +666,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       const accessHash = await this.messageStorage.getUserAccessHash(id);
       peer = { _: "inputPeerUser", user_id: Api.chatIdToPeerId(id), access_hash: accessHash ?? 0n } as Api.inputPeerUser;
     } else if (-MAX_CHAT_ID <= id) {
+      await this.messageStorage.peers.get([id]); // loads it for synchronous lookups
       peer = { _: "inputPeerChat", chat_id: BigInt(Math.abs(id)) } as Api.inputPeerChat;
     } else if (ZERO_CHANNEL_ID - MAX_CHANNEL_ID <= id && id !== ZERO_CHANNEL_ID) {
       const accessHash = await this.messageStorage.getChannelAccessHash(id);
-- 
2.43.0


From 42caa7ef1dc6ef4624b61afa3b84cb416076a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 71/73] fix: find mentioned users that are not in memory

---
 client/3_message_manager.ts      | 70 ++++++++++++++++++--------------
 client/4_checklist_manager.ts    |  6 +--
 client/4_contact_manager.ts      |  4 +-
 client/4_gift_manager.ts         |  4 +-
 client/4_link_preview_manager.ts |  2 +-
 client/4_poll_manager.ts         |  2 +-
 client/4_story_manager.ts        |  4 +-
 types/2_message_entity.ts        | 50 +++++++++++++----------
 types/7_inline_query_result.ts   | 18 ++++----
 9 files changed, 90 insertions(+), 70 deletions(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index e957109..a4d0d91 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -23,7 +23,7 @@ import { InputError } from "../0_errors.ts";
 import { base64EncodeUrlSafe, encodeText, fromUnixTimestamp, getLogger, getRandomId, type Logger } from "../1_utilities.ts";
 import { Api } from "../2_tl.ts";
 import { getDc } from "../3_transport.ts";
-import { type Animation, assertMessageType, type BlockedUserList, type ChatActionType, collectMediaFileSources, constructAnimation, constructBlockedUserList, constructChatAction, constructMessage as constructMessage_, constructMessageDraft, constructMessageEntity, constructMessageReactionList, constructMessageViewer, constructMiniAppInfo, constructReportResult, constructSavedChats, constructSticker, constructSummarizedText, constructVoiceTranscription, deserializeFileId, deserializeInlineMessageId, type FileId, type FileSource, FileType, type ID, type InlineQueryResult, inlineQueryResultToTlObject, type InputChecklistItem, type InputMedia, inputPageBlockToTlObject, type InputPollMedia, type InputPollMediaSticker, type InputPollMediaVideo, type InputPollOption, type InputRichText, type Message, type MessageAnimation, type MessageAudio, type MessageChecklist, type MessageContact, type MessageCounters, type MessageDice, type MessageDocument, type MessageEntity, messageEntityToTlObject, type MessageGetter, type MessageInvoice, type MessageList, type MessageLivePhoto, type MessageLocation, type MessagePhoto, type MessagePoll, type MessageReactionList, type MessageReference, type MessageRichText, messageSearchFilterToTlObject, type MessageSticker, type MessageText, type MessageVenue, type MessageVideo, type MessageVideoNote, type MessageViewer, type MessageVoice, type MiniAppInfo, type ParseMode, type Poll, type PriceTag, type Reaction, reactionEqual, reactionToTlObject, replyMarkupToTlObject, type ReportResult, type RichText, type SavedChats, type SelfDestructOption, selfDestructOptionToInt, serializeFileId, type Sticker, type SummarizedText, type TextToTranslate, toUniqueFileId, type TranslatedText, type Update, type UsernameResolver, type VoiceTranscription } from "../3_types.ts";
+import { type Animation, assertMessageType, type BlockedUserList, type ChatActionType, collectMediaFileSources, constructAnimation, constructBlockedUserList, constructChatAction, constructMessage as constructMessage_, constructMessageDraft, constructMessageEntity, constructMessageReactionList, constructMessageViewer, constructMiniAppInfo, constructReportResult, constructSavedChats, constructSticker, constructSummarizedText, constructVoiceTranscription, deserializeFileId, deserializeInlineMessageId, type FileId, type FileSource, FileType, getMentionedUserId, type ID, type InlineQueryResult, inlineQueryResultToTlObject, type InputChecklistItem, type InputMedia, inputPageBlockToTlObject, type InputPollMedia, type InputPollMediaSticker, type InputPollMediaVideo, type InputPollOption, type InputRichText, type Message, type MessageAnimation, type MessageAudio, type MessageChecklist, type MessageContact, type MessageCounters, type MessageDice, type MessageDocument, type MessageEntity, messageEntityToTlObject, type MessageGetter, type MessageInvoice, type MessageList, type MessageLivePhoto, type MessageLocation, type MessagePhoto, type MessagePoll, type MessageReactionList, type MessageReference, type MessageRichText, messageSearchFilterToTlObject, type MessageSticker, type MessageText, type MessageVenue, type MessageVideo, type MessageVideoNote, type MessageViewer, type MessageVoice, type MiniAppInfo, type ParseMode, type Poll, type PriceTag, type Reaction, reactionEqual, reactionToTlObject, replyMarkupToTlObject, type ReportResult, type RichText, type SavedChats, type SelfDestructOption, selfDestructOptionToInt, serializeFileId, type Sticker, type SummarizedText, type TextToTranslate, toUniqueFileId, type TranslatedText, type Update, type UsernameResolver, type VoiceTranscription } from "../3_types.ts";
 import { peerToChatId } from "../tl/2_telegram.ts";
 import { parseHtml } from "./0_html.ts";
 import { parseMarkdown } from "./0_markdown.ts";
@@ -190,12 +190,22 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     }
   }
 
-  parseText(text_: string, params?: { parseMode?: ParseMode; entities?: MessageEntity[] }, isEmptyAllowed?: boolean): [string, Api.MessageEntity[] | undefined] {
+  async parseText(text_: string, params?: { parseMode?: ParseMode; entities?: MessageEntity[] }, isEmptyAllowed?: boolean): Promise<[string, Api.MessageEntity[] | undefined]> {
     const [text, entities_] = MessageManager.parseText(text_, params?.entities ?? [], params?.parseMode === null ? null : params?.parseMode ?? this.#c.parseMode, isEmptyAllowed);
-    const entities = entities_?.length > 0 ? entities_.map((v) => messageEntityToTlObject(v, this.#c.getPeer)) : undefined;
+    const entities = entities_?.length > 0 ? await this.#messageEntitiesToTlObjects(entities_) : undefined;
     return [text, entities] as const;
   }
 
+  async #messageEntitiesToTlObjects(entities: MessageEntity[]): Promise<Api.MessageEntity[]> {
+    for (const entity of entities) {
+      const userId = getMentionedUserId(entity);
+      if (userId !== null) {
+        await this.#c.messageStorage.peers.get([userId]); // loads it for the synchronous lookup
+      }
+    }
+    return entities.map((v) => messageEntityToTlObject(v, this.#c.getPeer));
+  }
+
   async updatesToMessages(chatId: ID, updates: Api.Updates, businessConnectionId?: string): Promise<Message[]> {
     const messages = new Array<Message>();
 
@@ -333,7 +343,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
 
   async sendMessageDraft(chatId: ID, draftId: number, text: string, params?: SendMessageDraftParams) {
     this.#c.storage.assertBot("sendMessageDraft");
-    const [message, entities] = this.parseText(text, params, true);
+    const [message, entities] = await this.parseText(text, params, true);
     const peer = await this.#c.getInputPeer(chatId);
     await this.#c.invoke({
       _: "messages.setTyping",
@@ -361,7 +371,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     params?: SendMessageParams,
   ): Promise<MessageText> {
     this.#checkParams(params);
-    const [message, entities] = this.parseText(text, params);
+    const [message, entities] = await this.parseText(text, params);
 
     const replyMarkup = await this.#constructReplyMarkup(params);
 
@@ -692,7 +702,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
         reply_to_msg_id: params.replyTo.messageId,
         top_msg_id: topMsgId,
         quote_text: params.replyTo.quote?.text,
-        quote_entities: await Promise.all(params.replyTo.quote?.entities.map((v) => messageEntityToTlObject(v, this.#c.getPeer)) ?? []),
+        quote_entities: await this.#messageEntitiesToTlObjects(params.replyTo.quote?.entities ?? []),
         quote_offset: params.replyTo.quote?.offset,
         monoforum_peer_id: directMessagesTopicId ? await this.#c.getInputPeer(directMessagesTopicId) : undefined,
         poll_option: params.replyTo.pollOptionIndex !== undefined ? encodeText(String(params.replyTo.pollOptionIndex)) : undefined,
@@ -1140,7 +1150,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const replyMarkup = await this.#constructReplyMarkup(params);
 
     const caption_ = params?.caption;
-    const parseResult = caption_ !== undefined ? this.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }, true) : undefined;
+    const parseResult = caption_ !== undefined ? await this.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }, true) : undefined;
 
     const caption = parseResult?.[0];
     const captionEntities = parseResult?.[1];
@@ -1225,7 +1235,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const replyMarkup = await this.#constructReplyMarkup(params);
 
     const explanation = params?.explanation;
-    const parseResult = explanation !== undefined ? this.parseText(explanation, { parseMode: params?.explanationParseMode, entities: params?.explanationEntities }) : undefined;
+    const parseResult = explanation !== undefined ? await this.parseText(explanation, { parseMode: params?.explanationParseMode, entities: params?.explanationEntities }) : undefined;
 
     const solution = parseResult?.[0];
     const solutionEntities = parseResult?.[1];
@@ -1237,14 +1247,14 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       }
     }
 
-    const answers: Api.inputPollAnswer[] = options.map((v, i) => {
+    const answers: Api.inputPollAnswer[] = await Promise.all(options.map(async (v, i) => {
       const text = v.text;
       const entities = v.entities;
-      const parseResult = this.parseText(text, { parseMode: v.parseMode, entities });
-      return ({ _: "inputPollAnswer", text: { _: "textWithEntities", text: parseResult[0], entities: parseResult[1] ?? [] }, media: mediaMap.get(i) });
-    });
+      const parseResult = await this.parseText(text, { parseMode: v.parseMode, entities });
+      return ({ _: "inputPollAnswer" as const, text: { _: "textWithEntities" as const, text: parseResult[0], entities: parseResult[1] ?? [] }, media: mediaMap.get(i) });
+    }));
 
-    const questionParseResult = this.parseText(question, { parseMode: params?.questionParseMode, entities: params?.questionEntities });
+    const questionParseResult = await this.parseText(question, { parseMode: params?.questionParseMode, entities: params?.questionEntities });
     const poll: Api.poll = {
       _: "poll",
       id: getRandomId(),
@@ -1276,7 +1286,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     };
 
     const description = params?.description;
-    const parseResult2 = description !== undefined ? this.parseText(description, { parseMode: params?.descriptionParseMode, entities: params?.descriptionEntities }) : undefined;
+    const parseResult2 = description !== undefined ? await this.parseText(description, { parseMode: params?.descriptionParseMode, entities: params?.descriptionEntities }) : undefined;
     const caption = parseResult2?.[0];
     const entities = parseResult2?.[1];
 
@@ -1358,14 +1368,14 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const noforwards = params?.isContentProtected || undefined;
     const sendAs = params?.sendAs ? await this.#c.getInputPeer(params.sendAs) : undefined;
 
-    const list: Api.todoItem[] = items.map((v, i) => {
+    const list: Api.todoItem[] = await Promise.all(items.map(async (v, i) => {
       const text = v.text;
       const entities = v.entities;
-      const parseResult = this.parseText(text, { parseMode: v.parseMode, entities });
-      return ({ _: "todoItem", id: i + 1, title: { _: "textWithEntities", text: parseResult[0], entities: parseResult[1] ?? [] } });
-    });
+      const parseResult = await this.parseText(text, { parseMode: v.parseMode, entities });
+      return ({ _: "todoItem" as const, id: i + 1, title: { _: "textWithEntities" as const, text: parseResult[0], entities: parseResult[1] ?? [] } });
+    }));
 
-    const titleParseResult = this.parseText(title, { parseMode: params?.titleParseMode, entities: params?.titleEntities });
+    const titleParseResult = await this.parseText(title, { parseMode: params?.titleParseMode, entities: params?.titleEntities });
     const todo: Api.todoList = {
       _: "todoList",
       title: { _: "textWithEntities", text: titleParseResult[0], entities: titleParseResult[1] ?? [] },
@@ -1465,7 +1475,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
         throw new InputError("The referenced message is not a text message.");
       }
     }
-    const [message, entities] = this.parseText(text, params);
+    const [message, entities] = await this.parseText(text, params);
     if (!message) {
       throw new InputError("Message text cannot be empty.");
     }
@@ -1505,7 +1515,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
   ): Promise<MessageText> {
     this.#c.storage.assertBot("editEphemeralMessageText");
     this.#checkParams(params);
-    const [message, entities] = this.parseText(text, params);
+    const [message, entities] = await this.parseText(text, params);
     if (!message) {
       throw new InputError("Message text cannot be empty.");
     }
@@ -1582,7 +1592,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       throw new InputError("The referenced message cannot have a caption.");
     }
 
-    const [message, entities] = this.parseText(params?.caption ?? "", params, true);
+    const [message, entities] = await this.parseText(params?.caption ?? "", params, true);
 
     const result = await this.#c.invoke({
       _: "messages.editMessage",
@@ -1600,7 +1610,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     this.#c.storage.assertBot("editEphemeralMessageCaption");
     this.#checkParams(params);
 
-    const [message, entities] = this.parseText(params?.caption ?? "", params, true);
+    const [message, entities] = await this.parseText(params?.caption ?? "", params, true);
 
     const result = await this.#c.invoke({
       _: "ephemeral.editMessage",
@@ -1617,7 +1627,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
 
   async #editInlineMessageTextInner(inlineMessageId: string, text: string, allowEmpty: boolean, params?: EditMessageTextParams) {
     this.#checkParams(params);
-    const [message, entities] = this.parseText(text, params, allowEmpty);
+    const [message, entities] = await this.parseText(text, params, allowEmpty);
     if (!allowEmpty && !message) {
       throw new InputError("Message text cannot be empty.");
     }
@@ -2000,7 +2010,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     if (!("animation" in message) && !("audio" in message) && !("document" in message) && !("photo" in message) && !("video" in message)) {
       throw new InputError("Unexpected message type.");
     }
-    const maybeParseResult = media.caption !== undefined ? this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
+    const maybeParseResult = media.caption !== undefined ? await this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
     const result = await this.#c.invoke({
       _: "messages.editMessage",
       peer: await this.#c.getInputPeer(chatId),
@@ -2025,7 +2035,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     this.#c.storage.assertBot("editEphemeralMessageMedia");
     checkMessageId(messageId);
     this.#checkParams(params);
-    const maybeParseResult = media.caption !== undefined ? this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
+    const maybeParseResult = media.caption !== undefined ? await this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
     const result = await this.#c.invoke({
       _: "ephemeral.editMessage",
       receiver_id: await this.#c.getInputUser(receiverUserId),
@@ -2045,7 +2055,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     this.#checkParams(params);
     this.#c.storage.assertBot("editInlineMessageMedia");
     const id = deserializeInlineMessageId(inlineMessageId);
-    const maybeParseResult = media.caption !== undefined ? this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
+    const maybeParseResult = media.caption !== undefined ? await this.parseText(media.caption, { entities: media.captionEntities, parseMode: media.parseMode }, true) : undefined;
     await this.#c.invoke({
       _: "messages.editInlineBotMessage",
       id,
@@ -2601,7 +2611,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const multiMedia: Api.inputSingleMedia[] = new Array<Api.InputSingleMedia>();
     for (const v of media) {
       const randomId = getRandomId();
-      const [message, entities] = v.caption !== undefined ? this.parseText(v.caption, { entities: v.captionEntities, parseMode: v.parseMode }, true) : ["", []];
+      const [message, entities] = v.caption !== undefined ? await this.parseText(v.caption, { entities: v.captionEntities, parseMode: v.parseMode }, true) : ["", []];
       multiMedia.push({ _: "inputSingleMedia", message, entities, random_id: randomId, media: await this.#resolveInputMedia(v) });
     }
 
@@ -2960,7 +2970,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const result = await this.#c.invoke({
       _: "messages.translateText",
       to_lang: toLanguage,
-      text: texts.map((v) => ({ _: "textWithEntities", text: v.text, entities: v.entities.map((v) => messageEntityToTlObject(v, this.#c.getPeer)) })),
+      text: await Promise.all(texts.map(async (v) => ({ _: "textWithEntities" as const, text: v.text, entities: await this.#messageEntitiesToTlObjects(v.entities) }))),
       tone: params?.tone,
     });
     return result.result.map((v) => ({ text: v.text, entities: v.entities.map(constructMessageEntity).filter((v) => v !== null) }));
@@ -3184,7 +3194,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
   async saveDraft(chatId: ID, text: string, params?: SaveDraftParams) {
     this.#c.storage.assertUser("saveDraft");
     const peer = await this.#c.getInputPeer(chatId);
-    const [message, entities] = this.parseText(text, params, true);
+    const [message, entities] = await this.parseText(text, params, true);
     const effect = params?.effectId ? BigInt(params.effectId) : undefined;
     const media = params?.media ? await this.#resolveInputMedia(params.media) : undefined;
     const invert_media = params?.isMediaAboveText || undefined;
diff --git a/client/4_checklist_manager.ts b/client/4_checklist_manager.ts
index b3c526f..af3203f 100644
--- a/client/4_checklist_manager.ts
+++ b/client/4_checklist_manager.ts
@@ -38,12 +38,12 @@ export class ChecklistManager {
     this.#c.storage.assertUser("addToChecklist");
     const peer = await this.#c.getInputPeer(chatId);
     const msg_id = messageId;
-    const list = items.map((v): Api.todoItem => {
+    const list = await Promise.all(items.map(async (v): Promise<Api.todoItem> => {
       const text = v.text;
       const entities = v.entities;
-      const parseResult = this.#c.messageManager.parseText(text, { parseMode: v.parseMode, entities });
+      const parseResult = await this.#c.messageManager.parseText(text, { parseMode: v.parseMode, entities });
       return { _: "todoItem", id: 0, title: { _: "textWithEntities", text: parseResult[0], entities: parseResult[1] ?? [] } };
-    });
+    }));
     await this.#c.invoke({ _: "messages.appendTodoList", peer, msg_id, list });
   }
 
diff --git a/client/4_contact_manager.ts b/client/4_contact_manager.ts
index 82f5b9c..26b3ec4 100644
--- a/client/4_contact_manager.ts
+++ b/client/4_contact_manager.ts
@@ -37,7 +37,7 @@ export class ContactManager {
   async addContact(userId: ID, firstName: string, params?: AddContactParams) {
     this.#c.storage.assertUser("addContact");
 
-    const noteParsed = params?.note ? this.#c.messageManager.parseText(params?.note, { parseMode: params?.noteParseMode, entities: params?.noteEntities }) : undefined;
+    const noteParsed = params?.note ? await this.#c.messageManager.parseText(params?.note, { parseMode: params?.noteParseMode, entities: params?.noteEntities }) : undefined;
 
     await this.#c.invoke({ _: "contacts.addContact", add_phone_privacy_exception: params?.isPhoneNumberShared || undefined, id: await this.#c.getInputUser(userId), first_name: firstName, last_name: params?.lastName ?? "", phone: params?.phoneNumber ?? "", note: noteParsed ? { _: "textWithEntities", text: noteParsed[0], entities: noteParsed[1] ?? [] } : undefined });
   }
@@ -68,7 +68,7 @@ export class ContactManager {
 
   async setContactNote(userId: ID, params?: SetContactNoteParams) {
     this.#c.storage.assertUser("setContactNote");
-    const noteParsed = params?.note ? this.#c.messageManager.parseText(params?.note, { parseMode: params?.noteParseMode, entities: params?.noteEntities }) : undefined;
+    const noteParsed = params?.note ? await this.#c.messageManager.parseText(params?.note, { parseMode: params?.noteParseMode, entities: params?.noteEntities }) : undefined;
     await this.#c.invoke({ _: "contacts.updateContactNote", id: await this.#c.getInputUser(userId), note: noteParsed ? { _: "textWithEntities", text: noteParsed[0], entities: noteParsed[1] ?? [] } : { _: "textWithEntities", text: "", entities: [] } });
   }
 }
diff --git a/client/4_gift_manager.ts b/client/4_gift_manager.ts
index cbdaced..c94f5fe 100644
--- a/client/4_gift_manager.ts
+++ b/client/4_gift_manager.ts
@@ -76,7 +76,7 @@ export class GiftManager {
     const gift_id = BigInt(giftId);
     let message: Api.textWithEntities | undefined;
     if (params?.message) {
-      const parsedText = this.#c.messageManager.parseText(params.message, params);
+      const parsedText = await this.#c.messageManager.parseText(params.message, params);
       message = { _: "textWithEntities", text: parsedText[0], entities: parsedText[1] ?? [] };
     }
     const invoice: Api.inputInvoiceStarGift = { _: "inputInvoiceStarGift", hide_name, include_upgrade, peer, gift_id, message };
@@ -143,7 +143,7 @@ export class GiftManager {
     this.#c.storage.assertBot("giftPremiumSubscription");
     const months = duration;
     const user_id = await this.#c.getInputUser(userId);
-    const message = params?.text ? this.#c.messageManager.parseText(params.text, { parseMode: params.parseMode, entities: params.entities }) : undefined;
+    const message = params?.text ? await this.#c.messageManager.parseText(params.text, { parseMode: params.parseMode, entities: params.entities }) : undefined;
     const invoice: Api.inputInvoicePremiumGiftStars = { _: "inputInvoicePremiumGiftStars", months, user_id, message: message ? { _: "textWithEntities", text: message[0], entities: message[1] ?? [] } : undefined };
 
     const form = await this.#c.invoke({ _: "payments.getPaymentForm", invoice });
diff --git a/client/4_link_preview_manager.ts b/client/4_link_preview_manager.ts
index 53e0e92..c477eaf 100644
--- a/client/4_link_preview_manager.ts
+++ b/client/4_link_preview_manager.ts
@@ -42,7 +42,7 @@ export class LinkPreviewManager implements UpdateProcessor<LinkPreviewManagerUpd
 
   async getLinkPreview(text: string, params?: GetLinkPreviewParams): Promise<LinkPreview | null> {
     this.#c.storage.assertUser("getLinkPreview");
-    const [text_, entities_] = this.#c.messageManager.parseText(text, params);
+    const [text_, entities_] = await this.#c.messageManager.parseText(text, params);
 
     const result = await this.#c.invoke({
       _: "messages.getWebPagePreview",
diff --git a/client/4_poll_manager.ts b/client/4_poll_manager.ts
index 2ac1bb3..d741899 100644
--- a/client/4_poll_manager.ts
+++ b/client/4_poll_manager.ts
@@ -104,7 +104,7 @@ export class PollManager implements UpdateProcessor<PollManagerUpdate, true> {
     const msg_id = messageId;
     const text = option.text;
     const entities = option.entities;
-    const parseResult = this.#c.messageManager.parseText(text, { parseMode: option.parseMode, entities });
+    const parseResult = await this.#c.messageManager.parseText(text, { parseMode: option.parseMode, entities });
     const media = option.media ? await this.#c.messageManager.resolvePollMedia(peer, option.media) : undefined;
     const answer: Api.inputPollAnswer = {
       _: "inputPollAnswer",
diff --git a/client/4_story_manager.ts b/client/4_story_manager.ts
index 35582bb..b8ea962 100644
--- a/client/4_story_manager.ts
+++ b/client/4_story_manager.ts
@@ -138,7 +138,7 @@ export class StoryManager implements UpdateProcessor<StoryManagerUpdate> {
     }
 
     const caption_ = params?.caption;
-    const parseResult = caption_ !== undefined ? this.#c.messageManager.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }) : undefined;
+    const parseResult = caption_ !== undefined ? await this.#c.messageManager.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }) : undefined;
 
     const caption = parseResult === undefined ? undefined : parseResult[0];
     const entities = parseResult === undefined ? undefined : parseResult[1];
@@ -230,7 +230,7 @@ export class StoryManager implements UpdateProcessor<StoryManagerUpdate> {
     }
 
     const caption_ = params?.caption;
-    const parseResult = caption_ !== undefined ? this.#c.messageManager.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }, true) : undefined;
+    const parseResult = caption_ !== undefined ? await this.#c.messageManager.parseText(caption_, { parseMode: params?.parseMode, entities: params?.captionEntities }, true) : undefined;
 
     const id = storyId;
     const caption = parseResult === undefined ? undefined : parseResult[0];
diff --git a/types/2_message_entity.ts b/types/2_message_entity.ts
index 9093334..9108658 100644
--- a/types/2_message_entity.ts
+++ b/types/2_message_entity.ts
@@ -343,6 +343,27 @@ export function constructMessageEntity(obj: Api.MessageEntity): MessageEntity |
   }
 }
 
+/** Returns the identifier of the user an entity links to. */
+export function getMentionedUserId(entity: MessageEntity): number | null {
+  if (entity.type === "textMention") {
+    return entity.userId;
+  }
+  if (entity.type === "textLink") {
+    try {
+      const url = new URL(entity.url);
+      if (url.protocol === "tg:" && url.hostname === "user" && (url.pathname === "/" || url.pathname === "")) {
+        const id = Number(url.searchParams.get("id"));
+        if (Number.isSafeInteger(id)) {
+          return id;
+        }
+      }
+    } catch {
+      //
+    }
+  }
+  return null;
+}
+
 export function messageEntityToTlObject(entity: MessageEntity, getPeer: PeerGetter): Api.MessageEntity {
   const { offset, length } = entity;
   switch (entity.type) {
@@ -364,30 +385,17 @@ export function messageEntityToTlObject(entity: MessageEntity, getPeer: PeerGett
       return { _: "messageEntityCode", offset, length };
     case "pre":
       return { _: "messageEntityPre", offset, length, language: entity.language };
-    case "textLink": {
-      try {
-        const url = new URL(entity.url);
-        if (url.protocol === "tg:" && url.hostname === "user" && (url.pathname === "/" || url.pathname === "")) {
-          const id = Number(url.searchParams.get("id"));
-          if (!isNaN(id)) {
-            const peer = getPeer({ _: "peerUser", user_id: BigInt(id) });
-            if (!peer) {
-              unreachable();
-            }
-            return { _: "inputMessageEntityMentionName", offset, length, user_id: { _: "inputUser", user_id: BigInt(peer[0].id), access_hash: peer[1] } };
-          }
-        }
-      } catch {
-        //
-      }
-      return { _: "messageEntityTextUrl", offset, length, url: entity.url };
-    }
+    case "textLink":
     case "textMention": {
-      const peer = getPeer({ _: "peerUser", user_id: BigInt(entity.userId) });
-      if (!peer) {
+      const userId = getMentionedUserId(entity);
+      const peer = userId === null ? null : getPeer({ _: "peerUser", user_id: BigInt(userId) });
+      if (peer) {
+        return { _: "inputMessageEntityMentionName", offset, length, user_id: { _: "inputUser", user_id: BigInt(peer[0].id), access_hash: peer[1] } };
+      }
+      if (entity.type === "textMention") {
         unreachable();
       }
-      return { _: "inputMessageEntityMentionName", offset, length, user_id: { _: "inputUser", user_id: BigInt(peer[0].id), access_hash: peer[1] } };
+      return { _: "messageEntityTextUrl", offset, length, url: entity.url };
     }
     case "cashtag":
       return { _: "messageEntityCashtag", offset, length };
diff --git a/types/7_inline_query_result.ts b/types/7_inline_query_result.ts
index 2a447a5..ce30152 100644
--- a/types/7_inline_query_result.ts
+++ b/types/7_inline_query_result.ts
@@ -584,12 +584,14 @@ export function constructInlineQueryResult(result: Api.botInlineResult | Api.bot
 
 export async function inlineQueryResultToTlObject(
   result_: InlineQueryResult,
-  parseText: (text: string, params?: { parseMode?: ParseMode; entities?: MessageEntity[] }) => readonly [
-    string,
-    // deno-lint-ignore no-explicit-any
-    | any[]
-    | undefined,
-  ],
+  parseText: (text: string, params?: { parseMode?: ParseMode; entities?: MessageEntity[] }) => Promise<
+    readonly [
+      string,
+      // deno-lint-ignore no-explicit-any
+      | any[]
+      | undefined,
+    ]
+  >,
   usernameResolver: UsernameResolver,
   inputRichTextToInputRichMessage: (irt: InputRichText) => Promise<Api.InputRichMessage>,
 ): Promise<Api.InputBotInlineResult> {
@@ -685,7 +687,7 @@ export async function inlineQueryResultToTlObject(
 
   let ret: Awaited<ReturnType<typeof parseText>> = ["", []];
   if ("caption" in result_ && result_.caption) {
-    ret = parseText(result_.caption, { parseMode: result_.parseMode, entities: result_.captionEntities });
+    ret = await parseText(result_.caption, { parseMode: result_.parseMode, entities: result_.captionEntities });
   }
 
   const { type, id } = result_;
@@ -773,7 +775,7 @@ export async function inlineQueryResultToTlObject(
         sendMessage = { _: "inputBotInlineMessageRichMessage", rich_message: await inputRichTextToInputRichMessage(result_.messageContent.richText), reply_markup: replyMarkup };
         break;
       case "text": {
-        const [message, entities] = parseText(result_.messageContent.text, { entities: result_.messageContent.entities, parseMode: result_.messageContent.parseMode });
+        const [message, entities] = await parseText(result_.messageContent.text, { entities: result_.messageContent.entities, parseMode: result_.messageContent.parseMode });
         const noWebpage = result_.messageContent?.linkPreview && result_.messageContent?.linkPreview.type === "input" && result_.messageContent?.linkPreview.isDisabled || undefined;
         const invertMedia = result_.messageContent?.linkPreview?.isAboveText || undefined;
 
-- 
2.43.0


From 983e9d93110e8bbc6e10281f26999ed3fdfba62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 72/73] fix: compare the clocks with the sign of their
 difference

---
 session/2_session_encrypted.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index f772fed..d0a659a 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -609,10 +609,9 @@ export class SessionEncrypted extends Session implements Session {
         low = true;
         /* falls through */
       case 17: // message ID too high
-        this.state.timeDifference = Math.abs(toUnixTimestamp(new Date()) - Number(msgId >> 32n));
+        this.state.timeDifference = Number(msgId >> 32n) - toUnixTimestamp(new Date());
         if (!low) {
-          this.state.timeDifference = -this.state.timeDifference;
-          logger.debug("resetting time difference to", -this.state.timeDifference, "because the ID of the message", badMsgNotification.bad_msg_id, "was too high");
+          logger.debug("resetting time difference to", this.state.timeDifference, "because the ID of the message", badMsgNotification.bad_msg_id, "was too high");
           await this.#invalidateSession("message ID too high");
           return;
         } else {
-- 
2.43.0


From 74c21f24f83939178cb5bc62fc88f911a5bdc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 73/73] fix: find the last message of a chat list item in its
 own chat

---
 types/A_chat_list_item.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/A_chat_list_item.ts b/types/A_chat_list_item.ts
index 07ee7b8..dcfcf9b 100644
--- a/types/A_chat_list_item.ts
+++ b/types/A_chat_list_item.ts
@@ -45,13 +45,14 @@ export interface ChatListItem {
 }
 
 export async function constructChatListItem(dialog: Api.Dialog, dialogs: Api.messages_dialogs | Api.messages_dialogsSlice | Api.messages_peerDialogs, getPeer: PeerGetter, getMessage: MessageGetter, getStickerSetName: StickerSetNameGetter, getCommunity: CommunityGetter): Promise<ChatListItem> {
-  const topMessage_ = "top_message" in dialog ? dialogs.messages.find((v) => "id" in v && v.id === dialog.top_message) : undefined;
+  // the identifiers of messages in different chats might be the same
+  const topMessage_ = "top_message" in dialog ? dialogs.messages.find((v) => "id" in v && v.id === dialog.top_message && (!v.peer_id || Api.peerToChatId(v.peer_id) === Api.peerToChatId(dialog.peer))) : undefined;
   const lastMessage = topMessage_ ? await constructMessage(topMessage_, getPeer, getMessage, getStickerSetName, getCommunity, false) : undefined;
   const userId = "peer" in dialog ? "user_id" in dialog.peer ? dialog.peer.user_id : null : null;
   const chatId = "peer" in dialog ? "chat_id" in dialog.peer ? dialog.peer.chat_id : null : null;
   const channelId = "peer" in dialog ? "channel_id" in dialog.peer ? dialog.peer.channel_id : null : null;
   const communityId = "community_id" in dialog ? dialog.community_id : null;
-  const chat__ = communityId !== null ? dialogs.chats.find((v) => Api.isOneOf(["community", "communityForbidden"], v)) : chatId !== null ? dialogs.chats.find((v) => Api.isOneOf(["chat", "chatForbidden"], v) && v.id === chatId) : channelId !== null ? dialogs.chats.find((v) => Api.isOneOf(["channel", "channelForbidden"], v) && v.id === channelId) : userId !== null ? dialogs.users.find((v) => Api.is("user", v) && v.id === userId) : unreachable();
+  const chat__ = communityId !== null ? dialogs.chats.find((v) => Api.isOneOf(["community", "communityForbidden"], v) && v.id === communityId) : chatId !== null ? dialogs.chats.find((v) => Api.isOneOf(["chat", "chatForbidden"], v) && v.id === chatId) : channelId !== null ? dialogs.chats.find((v) => Api.isOneOf(["channel", "channelForbidden"], v) && v.id === channelId) : userId !== null ? dialogs.users.find((v) => Api.is("user", v) && v.id === userId) : unreachable();
   if (!chat__) {
     unreachable();
   }
-- 
2.43.0

