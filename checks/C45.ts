// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, Disk, type Event, run, Site, vclock } from "../lib/site.ts";

const ck = new Check("C45", {
  level: "exploration",
  rule: "Complete clients receive histories of new, edited, viewed and deleted messages of private chats, groups and channels, in pushes, in differences after losses, and in results, with scheduled and business messages of equal identifiers in between; after every step messages are read one by one and in lists and compared with the latest version sent, and requests made for reading are compared with what had been seen. A case is one history.",
  assumptions: ["Messages of private chats and groups share one identifier sequence, every channel has its own, scheduled and business messages have others, as in the protocol", "Restarts are regular stops"],
  quickSeconds: 60,
  thoroughSeconds: 500,
});

ck.part("history", { quick: 300, thorough: 15000, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t), sv = site.server;
  const bot = r.bool(0.3), persistCache = r.bool();
  const acc = site.account(77n, bot);
  const params: any = { authString: site.authString(site.login(acc)), persistCache, outgoingMessages: r.pick([undefined, true, false]) };
  const disk = new Disk(), diskOptions = { slow: r.pick([0, 0, 3]), serialize: r.bool() };
  const lat = r.pick([0, 10, 400]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  let deletions: { chatId: number; messageId: number; extra: string; tag?: number }[] = [];
  const handler = (u: any) => {
    if (u.deletedMessages) for (const d of u.deletedMessages) deletions.push({ ...d, extra: `${u.isScheduled ?? ""}${u.businessConnectionId ?? ""}` });
    return r.bool(0.2) ? new Promise<void>((f) => setTimeout(f, r.pick([1, 300]))) : undefined;
  };
  let p = site.proc({ disk, params, diskOptions, handler });

  const users = [5000n, 5001n], groups = [31n, 5000n], channels = [31n, 5000n];
  for (const u of users) acc.user(u);
  const group = (id: bigint) => ({ _: "chat", id, title: "G" + id, photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 });
  const chats = () => [...groups.map(group), ...channels.map((c) => acc.chat(c))];
  for (const c of channels) acc.channel(c);
  const people = () => users.map((u) => acc.user(u));
  const difference = acc.difference.bind(acc);
  const size = r.pick([1, 3, 100]);
  acc.sliceSize = () => size;
  let wiped = false;
  acc.difference = (q: any) => {
    const l = acc.events.filter((e) => e.box === "c" && e.n > q.pts);
    if (l.length && drop > 0) {
      // too much happened: the client is not told what
      drop--;
      const tags = new Set(l.map((e) => e.tag));
      wanted = wanted.filter((d) => !tags.has(d.tag!));
      seen.clear();
      wiped = true;
      t.count("too_long");
      log.push(`too long: ${l.length}`);
      return { _: "updates.differenceTooLong", pts: acc.pts };
    }
    const d = difference(q);
    if (d.new_messages) d.chats = chats(), d.users = people();
    return d;
  };
  type Chat = { peer: any; id: number; box: string };
  const list: Chat[] = [
    ...users.map((u) => ({ peer: { _: "peerUser", user_id: u }, id: Number(u), box: "c" })),
    ...groups.map((u) => ({ peer: { _: "peerChat", chat_id: u }, id: -Number(u), box: "c" })),
    ...channels.map((u) => ({ peer: { _: "peerChannel", channel_id: u }, id: -1000000000000 - Number(u), box: "h" + u })),
  ];
  // the service's messages by box and id
  const truth = new Map<string, Map<number, any>>();
  const next = new Map<string, number>();
  const inBox = (b: string) => truth.get(b) ?? truth.set(b, new Map()).get(b)!;
  const chatOf = (m: any) => list.find((c) => show(c.peer) === show(m.peer_id))!;
  // identifiers of what the client has seen
  let seen = new Map<string, Map<number, number>>(); // box -> id -> chat
  const see = (box: string, m: any) => {
    if (m._ === "messageEmpty") return;
    (seen.get(box) ?? seen.set(box, new Map()).get(box)!).set(m.id, chatOf(m).id);
  };
  let wanted: typeof deletions = [];
  let drop = 0;
  const event = (box: string, update: any, count: number, kind: Event["kind"], fromDifference = false): Event => {
    const tag = acc.nextTag++;
    let e: Event;
    const now = acc.date = sv.now() | 0;
    if (box === "c") {
      acc.pts += count;
      e = { box, n: acc.pts, count, tag, kind, update: { ...update, pts: acc.pts, pts_count: count }, at: now, users: people(), chats: chats() };
      acc.events.push(e);
    } else {
      const c = acc.channel(BigInt(box.slice(1)));
      c.pts += count;
      e = { box, n: c.pts, count, tag, kind, update: { ...update, pts: c.pts, pts_count: count }, at: now, users: people(), chats: chats() };
      c.events.push(e);
    }
    void fromDifference;
    return e;
  };
  let text = 0;
  let polls = 1n;
  const enc = new TextEncoder();
  const poll = (id: bigint, closed = false) => ({ _: "poll", id, closed: closed || undefined, question: { _: "textWithEntities", text: "q" + ++text, entities: [] }, answers: [0, 1].map((i) => ({ _: "pollAnswer", text: { _: "textWithEntities", text: "a" + i + text, entities: [] }, option: enc.encode(String(i)) })), hash: 0n });
  const results = () => {
    const n = [r.int(0, 9), r.int(0, 9)];
    return { _: "pollResults", results: n.map((v, i) => ({ _: "pollAnswerVoters", option: enc.encode(String(i)), voters: v, recent_voters: [] })), total_voters: n[0] + n[1] };
  };
  /** changes the poll in every copy of its message */
  const change = (m: any, whole: boolean) => {
    if (whole) m.media.poll = poll(m.media.poll.id, r.bool());
    m.media.results = results();
  };
  const polling = () => r.bool(0.3);
  const make = (c: Chat, id: number, extra: any = {}) => r.bool(0.9) || extra.edit_date ? { _: "message", id, peer_id: c.peer, from_id: c.box === "c" || r.bool() ? { _: "peerUser", user_id: users[0] } : undefined, date: sv.now() | 0, message: "t" + ++text, out: r.bool(0.2) || undefined, post: c.box !== "c" || undefined, ...(c.box !== "c" ? { views: r.int(1, 9), forwards: 0 } : {}), reactions: r.bool(0.2) ? { _: "messageReactions", results: [] } : undefined, media: polling() ? { _: "messageMediaPoll", poll: poll(polls++), results: results() } : undefined, ...extra } : { _: "messageService", id, peer_id: c.peer, from_id: { _: "peerUser", user_id: users[0] }, date: sv.now() | 0, action: { _: "messageActionChatEditTitle", title: "t" + ++text } };
  /** something happens; returns the update as the server would push it */
  const happen = (online = true): Event | any => {
    const c = r.pick(list), b = c.box, ch = b === "c" ? "" : "Channel";
    const ms = [...inBox(b).values()].filter((m) => chatOf(m) === c && m._ === "message");
    const x = r.f();
    if (x < 0.45 || !ms.length || !online && x >= 0.85) {
      const id = next.get(b) ?? r.pick([1, 1, 100]);
      next.set(b, id + r.pick([1, 1, 1, 5]));
      const m = make(c, id);
      inBox(b).set(id, m);
      see(b, m);
      return event(b, { _: `updateNew${ch}Message`, message: m }, 1, "message");
    }
    if (x < 0.65) {
      const old = r.pick(ms);
      const m = { ...old, message: "t" + ++text, edit_date: sv.now() | 0 };
      if (m.media && r.bool()) change(m, r.bool());
      inBox(b).set(m.id, m);
      see(b, m);
      return event(b, { _: `updateEdit${ch}Message`, message: m }, 1, "other");
    }
    if (x < 0.85) {
      const ids = [...new Set(Array.from({ length: r.int(1, 3) }, () => r.bool(0.8) ? r.pick([...inBox(b).keys()]) : r.int(1, next.get(b)! - 1 || 1)))];
      for (const id of ids) {
        const had = seen.get(b)?.get(id);
        if (b === "c") {
          if (had !== undefined) wanted.push({ chatId: had, messageId: id, extra: "", tag: acc.nextTag });
        } else wanted.push({ chatId: c.id, messageId: id, extra: "" });
        seen.get(b)?.delete(id);
        inBox(b).delete(id);
      }
      return event(b, b === "c" ? { _: "updateDeleteMessages", messages: ids } : { _: "updateDeleteChannelMessages", channel_id: c.peer.channel_id, messages: ids }, ids.length, "other");
    }
    const m = { ...r.pick(ms) };
    if (x < 0.93 && b !== "c" && seen.get(b)?.has(m.id)) {
      m.views = (m.views ?? 0) + r.int(1, 5);
      inBox(b).set(m.id, m);
      // what is delivered later carries the current number
      for (const e of acc.channel(c.peer.channel_id).events) if (e.update.message?.id === m.id && e.update.message._ === "message") e.update = { ...e.update, message: { ...e.update.message, views: m.views } };
      return { _: "updateChannelMessageViews", channel_id: c.peer.channel_id, id: m.id, views: m.views };
    }
    if (x < 0.9 && seen.get(b)?.has(m.id)) {
      if (m.media) {
        const whole = r.bool();
        change(m, whole);
        return { _: "updateMessagePoll", poll_id: m.media.poll.id, poll: whole ? m.media.poll : undefined, results: m.media.results };
      }
      if (m.reactions) {
        m.reactions.results = [{ _: "reactionCount", reaction: { _: "reactionEmoji", emoticon: "👍" }, count: r.int(1, 99) }];
        return { _: "updateMessageReactions", peer: c.peer, msg_id: m.id, reactions: m.reactions };
      }
    }
    // scheduled and business messages have identifiers of their own
    const id = r.bool(0.7) ? m.id : r.int(1, 60);
    if (!bot) {
      wanted.push({ chatId: c.id, messageId: id, extra: "true" });
      return { _: "updateDeleteScheduledMessages", peer: c.peer, messages: [id] };
    }
    if (r.bool() || c.peer._ !== "peerUser") {
      wanted.push({ chatId: c.id, messageId: id, extra: "b1" });
      return { _: "updateBotDeleteBusinessMessage", connection_id: "b1", peer: c.peer, messages: [id], qts: ++acc.qts };
    }
    return { _: "updateBotNewBusinessMessage", connection_id: "b1", message: make(c, id), qts: ++acc.qts };
  };
  const qtsEvent = (u: any) => {
    // positions of the secondary sequence have to exist in differences too
    if (u.qts) acc.events.push({ box: "q", n: u.qts, count: 1, tag: acc.nextTag++, kind: "other", update: u, at: sv.now() | 0, users: people(), chats: chats() });
  };
  let fetches: any[] = [];
  const scripted = new Map<string, any[]>();
  const chatOfInput = (p: any) => p._ === "inputPeerUser" ? list.find((c) => c.peer.user_id === p.user_id) : p._ === "inputPeerChat" ? list.find((c) => c.peer.chat_id === p.chat_id) : list.find((c) => c.peer.channel_id === p.channel_id);
  site.on = (c) => {
    const q = c.call;
    if (q._ === "messages.getMessages" || q._ === "channels.getMessages") {
      fetches.push(q);
      const box = q._ === "messages.getMessages" ? "c" : "h" + q.channel.channel_id;
      const l = q.id.map((x: any) => inBox(box).get(x.id) ?? { _: "messageEmpty", id: x.id });
      for (const m of l) see(box, m);
      t.count("fetches");
      return site.ok(c, box === "c" ? { _: "messages.messages", messages: l, topics: [], chats: chats(), users: people() } : { _: "messages.channelMessages", pts: 1, count: l.length, messages: l, topics: [], chats: chats(), users: people() });
    }
    if (q._ === "messages.sendMessage") {
      const to = chatOfInput(q.peer)!, id = next.get(to.box) ?? 1;
      next.set(to.box, id + 1);
      const m = make(to, id, { edit_date: undefined, reactions: undefined, media: undefined, message: q.message, out: true, from_id: { _: "peerUser", user_id: 77n }, post: undefined, ...(to.box === "c" ? {} : { views: 1, forwards: 0 }) });
      const m_ = m._ === "message" ? m : { ...m, _: "message", message: q.message, action: undefined, out: true, ...(to.box === "c" ? {} : { views: 1, forwards: 0 }) };
      inBox(to.box).set(id, m_);
      see(to.box, m_);
      const e = event(to.box, { _: to.box === "c" ? "updateNewMessage" : "updateNewChannelMessage", message: m_ }, 1, "message");
      t.count("sent");
      if (to.box === "c" && r.bool(0.7)) return site.ok(c, { _: "updateShortSentMessage", out: true, id, pts: e.n, pts_count: 1, date: m_.date });
      const u = acc.pack([e], false);
      u.updates.unshift({ _: "updateMessageID", id, random_id: q.random_id });
      return site.ok(c, u);
    }
    if (q._ === "messages.getHistory") {
      const l = scripted.get(String(q.hash))!;
      return site.ok(c, { _: "messages.messages", messages: l, topics: [], chats: chats(), users: people() });
    }
    return undefined;
  };
  const log: string[] = [];
  const introduce = async () => {
    site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], users: people(), chats: chats(), date: acc.date, seq: 0 });
    for (const id of channels) {
      // the client follows a channel from its first update on
      const c = list.find((c) => c.box === "h" + id)!;
      const n = next.get(c.box) ?? 1;
      next.set(c.box, n + 1);
      const m = make(c, n);
      inBox(c.box).set(n, m);
      see(c.box, m);
      site.push(acc, acc.pack([event(c.box, { _: "updateNewChannelMessage", message: m }, 1, "message")], false));
    }
    await advance(5000);
  };
  await run(p.client.start(), 600000, "start()");
  await advance(20000);
  await introduce();
  deletions = [];
  const samePoll = (got: any, m: any) => !m.media || got.poll?.id === String(m.media.poll.id) && got.poll.question === m.media.poll.question.text && got.poll.isClosed === !!m.media.poll.closed && got.poll.totalVoterCount === m.media.results.total_voters && got.poll.options.map((o: any) => o.text + o.voterCount).join() === m.media.poll.answers.map((a: any, i: number) => a.text.text + m.media.results.results[i].voters).join();
  const same = (got: any, m: any) => got.id === m.id && got.chat.id === chatOf(m).id && (m._ !== "message" || (m.media ? true : got.text === m.message) && samePoll(got, m) && show((got.reactions ?? []).map((v: any) => v.count)) === show((m.reactions?.results ?? []).map((v: any) => v.count)) && (m.views === undefined || got.views === m.views)) && (m._ === "message" || got.newChatTitle === m.action.title || got.type !== "newChatTitle");
  const read = async (c: Chat, ids: number[]) => {
    fetches = [];
    const box = c.box;
    const all = ids.every((id) => box === "c" ? seen.get(box)?.get(id) === c.id : seen.get(box)?.has(id));
    const want = ids.map((id) => inBox(box).get(id)).filter((m) => m && chatOf(m) === c);
    const one = ids.length === 1 && r.bool();
    const what = `message${one ? "" : "s"} ${ids} of ${c.id}`;
    let got: any;
    try {
      got = await run(one ? p.client.getMessage(c.id, ids[0]) : p.client.getMessages(c.id, ids), 600000, "getMessages()");
    } catch (e) {
      t.fail("read-failed", `reading ${what} failed with ${(e as Error).stack}`, { log });
    }
    const l: any[] = one ? got ? [got] : [] : got;
    const ctx = () => ({ log, fetches, want, got: l.map((m) => ({ id: m.id, chat: m.chat.id, text: m.text, type: m.type })), seen: [...seen].map(([b, m]) => [b, [...m]]) });
    t.count("reads");
    for (const m of l) t.ensure(m.chat.id === c.id, "foreign-chat", () => `reading ${what} returned a message of ${m.chat.id}`, ctx());
    for (const m of l) {
      const w = inBox(box).get(m.id);
      t.ensure(w && chatOf(w) === c, "ghost", () => `reading ${what} returned ${m.id} (${show(m.text)}), which ${w ? "is of another chat" : "was deleted"}`, ctx());
      t.ensure(same(m, w), "outdated", () => `reading ${what} returned text ${show(m.text)} and views ${m.views} for ${m.id}, expected ${show(w.message ?? w.action?.title)} and ${w.views}`, { ...ctx(), poll: m.poll, media: w.media, reactions: [m.reactions, w.reactions] });
    }
    t.ensure(l.map((m) => m.id).join() === want.map((m) => m.id).join(), "list", () => `reading ${what} returned ${l.map((m) => m.id)}, expected ${want.map((m) => m.id)}`, ctx());
    t.ensure(!all || !fetches.length, "needless-request", () => `${what} had been seen and were asked of the server`, ctx());
    if (all) t.count("read_from_cache");
    for (const f of fetches) t.ensure(f.id.length === ids.length, "request", () => `reading ${what} asked the server for ${show(f)}`, ctx());
  };
  for (let k = r.pick([3, 10, 25]); k > 0; k--) {
    const x = r.f();
    if (x < 0.12) {
      await run(p.client.disconnect(), 600000, "disconnect()");
      const fresh = r.bool();
      if (fresh) {
        p.kill();
        if (!persistCache) {
          seen = new Map();
          // what was deleted before is not known to the new client either
        }
      }
      // a new process starts from the current state; one that reconnects recovers what it missed
      if (!fresh) for (let i = r.int(0, 3); i > 0; i--) happen(false);
      if (fresh) p = site.proc({ disk, params, diskOptions, handler });
      await run(p.client.start(), 600000, "start()");
      await advance(20000);
      await introduce();
      log.push(fresh ? "restart" : "reconnect");
      t.count("restarts");
    } else if (x < 0.25) {
      // messages come in a result
      const b = r.pick(["c", ...channels.map((c) => "h" + c)]);
      const l = [...inBox(b).values()].filter(() => r.bool());
      scripted.set(String(k), l);
      await run(p.client.invoke({ _: "messages.getHistory", peer: { _: "inputPeerSelf" }, offset_id: 0, offset_date: 0, add_offset: 0, limit: 1, max_id: 0, min_id: 0, hash: BigInt(k) }), 600000, "getHistory");
      for (const m of l) see(b, m);
      log.push("result");
    } else if (x < 0.35) {
      const to = r.pick(list), tx = "s" + ++text;
      log.push(`send to ${to.id}`);
      const m: any = await run(p.client.sendMessage(to.id, tx), 600000, "sendMessage()");
      const w = [...inBox(to.box).values()].find((v) => v.message === tx);
      t.ensure(m.chat.id === to.id && w && m.id === w.id && m.text === tx && m.isOutgoing, "sent-result", () => `sending ${tx} to ${to.id} returned ${show({ id: m.id, chat: m.chat.id, text: m.text, out: m.isOutgoing })}, the message is ${w?.id}`, { log });
      await advance(30000);
    } else {
      for (let i = r.int(1, 5); i > 0; i--) {
        const e = happen();
        log.push(e.update ? `${e.update._}(${e.update.messages ?? e.update.message?.id})` : `${e._}(${e.messages ?? e.id ?? e.message?.id})`);
        t.count("events");
        if (!e.update) {
          qtsEvent(e);
          await advance(lat + 400);
          site.push(acc, { _: "updates", updates: [e], users: people(), chats: chats(), date: acc.date, seq: 0 });
          await advance(lat + 400);
        } else if (r.bool(0.85)) {
          const m = e.update.message;
          if (e.update._ === "updateNewMessage" && m._ === "message" && !m.media && !m.reactions && m.peer_id._ !== "peerChannel" && (m.peer_id._ === "peerChat" || m.from_id.user_id === m.peer_id.user_id || m.out) && r.bool(0.6)) {
            const body = { id: m.id, out: m.out, message: m.message, pts: e.n, pts_count: e.count, date: m.date };
            site.push(acc, m.peer_id._ === "peerUser" ? { _: "updateShortMessage", user_id: m.peer_id.user_id, ...body } : { _: "updateShortChatMessage", from_id: m.from_id.user_id, chat_id: m.peer_id.chat_id, ...body });
            t.count("short_pushes");
          } else site.push(acc, acc.pack([e], false));
          if (lat || r.bool()) await advance(lat + 400);
        } else {
          t.count("lost_pushes");
          log.push("lost");
        }
      }
      // lost ones are noticed at the latest now
      drop = r.pick([0, 0, 0, 0, 1]);
      site.push(acc, { _: "updatesTooLong" });
      for (const id of channels) site.push(acc, { _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: id }], users: [], chats: [acc.chat(id)], date: acc.date, seq: 0 });
      await advance(30000);
      drop = 0;
    }
    // what came from channels while all was being forgotten may be forgotten too
    if (wiped) for (const b of seen.keys()) if (b !== "c") seen.delete(b);
    wiped = false;
    // deletions were reported
    const key = (d: any) => `${d.extra}/${d.chatId}/${d.messageId}`;
    const a = deletions.map(key).sort(), b = wanted.map(key).sort();
    t.ensure(a.join() === b.join(), "deletions", () => `deletions of ${a.filter((v) => !b.includes(v))} were reported, deletions of ${b.filter((v) => !a.includes(v))} were not (of ${b.length})`, { log });
    t.count("deletions", a.length);
    deletions = [];
    wanted = [];
    for (let i = r.int(1, 6); i > 0; i--) {
      const c = r.pick(list);
      const known = [...inBox(c.box).keys()];
      const ids = [...new Set(Array.from({ length: r.pick([1, 1, 2, 4]) }, () => known.length && r.bool(0.8) ? r.pick(known) : r.int(1, 40)))];
      await read(c, ids);
    }
    t.state("cache", [...seen].map(([b, m]) => b + m.size).join());
  }
  t.sig(log.join(";"));
  t.sample({ bot, persistCache, lat, log: log.slice(0, 30) });
  p.kill();
  void vclock;
});

await ck.main();
