// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, API, run, Site } from "../lib/site.ts";
import { Disk } from "../lib/disk.ts";
import * as TL from "../lib/tl.ts";

const ck = new Check("C50", {
  level: "exploration",
  rule: "Complete clients page through lists (chats, saved chats, histories, searches, members, common chats, join requests, invite links, voters, reactions, blocked users, photos, topics, administration logs) held by a service that continues from the offset it is given, with random page sizes, new entries at the top between pages and restarts; the pages together must be the service's list, entry by entry. A case is one such walk over several lists.",
  assumptions: ["The service continues strictly after the entry an offset names, in its order; message identifiers are unique per channel and across all other chats of an account"],
  quickSeconds: 30,
  thoroughSeconds: 300,
});
const enc = new TextEncoder();
type Row = { key: string; [k: string]: any };

ck.part("walks", { quick: 130, thorough: 5000, rejections: true }, async (t) => {
  const r = t.rng, site = new Site(t), sv = site.server, acc = site.account(77n, false);
  const lat = r.pick([0, 10, 300]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  // --- who there is; identifiers of users, groups and channels may coincide
  const users = Array.from({ length: r.int(3, 14) }, (_, i) => BigInt(5000 + i));
  const channels = Array.from({ length: r.int(3, 12) }, (_, i) => BigInt(r.bool(0.3) ? 5000 + i : 30 + i));
  const groups = Array.from({ length: r.int(1, 6) }, (_, i) => BigInt(r.bool(0.3) ? 5000 + i : 30 + i));
  users.forEach((u) => acc.user(u)), channels.forEach((c) => acc.channel(c));
  const groupObject = (g: bigint) => ({ _: "chat", id: g, title: "G" + g, photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 });
  const known = () => ({ users: r.shuffle([acc.user(77n), ...users.map((u) => acc.user(u))]), chats: r.shuffle([...groups.map(groupObject), ...channels.map((c) => acc.chat(c))]) });
  const place = (kind: string, id: bigint) =>
    kind === "user"
      ? { kind, raw: id, id: Number(id), peer: { _: "peerUser", user_id: id }, input: { _: "inputPeerUser", user_id: id, access_hash: acc.user(id).access_hash } }
      : kind === "group"
      ? { kind, raw: id, id: -Number(id), peer: { _: "peerChat", chat_id: id }, input: { _: "inputPeerChat", chat_id: id } }
      : { kind, raw: id, id: -1000000000000 - Number(id), peer: { _: "peerChannel", channel_id: id }, input: { _: "inputPeerChannel", channel_id: id, access_hash: acc.channel(id).access } };
  const places = [...users.map((u) => place("user", u)), ...groups.map((g) => place("group", g)), ...channels.map((c) => place("channel", c))];
  const eq = (a: any, b: any) => show(a, 500) === show(b, 500);
  const findPlace = (input: any) => places.find((p) => eq(Object.entries(p.input).sort(), Object.entries(input).sort()));
  const theUser = (input: any) => users.find((u) => input._ === "inputUser" && input.user_id === u && input.access_hash === acc.user(u).access_hash);
  const theChannel = (input: any) => channels.find((c) => input._ === "inputChannel" && input.channel_id === c && input.access_hash === acc.channel(c).access);

  // --- messages
  let common = 100, date = 1_700_000_000;
  const own = new Map<bigint, number>();
  const tick = () => date += r.int(0, 3);
  const newId = (p: any) => p.kind === "channel" ? (own.set(p.raw, (own.get(p.raw) ?? r.int(90, 110)) + 1), own.get(p.raw)!) : ++common;
  const message = (p: any, id: number, at: number) =>
    r.bool(0.15)
      ? { _: "messageService", id, from_id: p.kind === "user" ? undefined : { _: "peerUser", user_id: users[0] }, peer_id: p.peer, date: at, action: { _: "messageActionPinMessage" } }
      : { _: "message", id, from_id: p.kind === "user" ? undefined : { _: "peerUser", user_id: users[0] }, peer_id: p.peer, date: at, message: `m${p.id}/${id}` };

  // --- lists; each answers the service's side of a page and says what the caller continues with
  let problem: string | null = null;
  const bad = (s: string) => (problem ??= s, { error: [400, "TEST_INVALID"] as [number, string] });
  type List = { name: string; rows: Row[]; grow: () => void; serve: (q: any) => any; page: (c: any, after: any, limit: number | undefined) => Promise<any>; keys: (v: any) => string[]; last: (v: any) => any; total?: (v: any) => number };
  const lists: List[] = [];
  const some = <T>(l: T[], min = 0) => r.shuffle([...l]).slice(0, r.int(min, l.length));
  /** the rows after the one an offset names */
  const follow = (rows: Row[], at: number, limit: number) => rows.slice(at, at + limit);
  const desc = (a: Row, b: Row) => b.date - a.date || b.top - a.top || (a.key < b.key ? -1 : 1);
  const cursor = (rows: Row[], q: any, none: boolean, p: any) => {
    if (none) return 0;
    const i = rows.findIndex((x) => x.place === p && x.date === q.offset_date && x.top === q.offset_id);
    if (i >= 0) return i + 1;
    // no such entry now: where it would be
    const was = { key: `${p?.id ?? p}:${q.offset_id}@${q.offset_date}`, top: q.offset_id, date: q.offset_date } as Row;
    const j = rows.findIndex((x) => desc(was, x) < 0);
    return j < 0 ? rows.length : j;
  };
  const dialogRows = (l: any[]) => l.map((p): Row => {
    const top = newId(p), at = tick();
    return { key: `${p.id}:${top}@${at}`, place: p, top, date: at, m: message(p, top, at) };
  }).sort(desc);
  const dialogOf = (x: Row) => ({ _: "dialog", peer: x.place.peer, top_message: x.top, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: x.place.kind === "channel" ? acc.channel(x.place.raw).pts : undefined });
  const itemKey = (x: any) => `${x.chat.id}:${x.lastMessage?.id}@${x.lastMessage?.date}`;
  const halves = r.shuffle([...places]), cut = r.int(0, halves.length);
  for (const [folder, from, mine] of [[0, "main", halves.slice(0, cut)], [1, "archived", halves.slice(cut)]] as const) {
    const rows = dialogRows(mine as any[]);
    let shown = 0;
    lists.push({
      name: "getChats " + from,
      rows,
      // a chat that was listed already gets a new message
      grow: () => {
        if (shown < 1) return;
        const x = rows[r.int(0, shown - 1)], top = newId(x.place), at = tick() + 1;
        rows.splice(rows.indexOf(x), 1);
        rows.unshift({ key: `${x.place.id}:${top}@${at}`, place: x.place, top, date: at, m: message(x.place, top, at) });
      },
      serve: (q) => {
        if (q._ !== "messages.getDialogs" || (q.folder_id ?? 0) !== folder) return;
        const none = q.offset_peer._ === "inputPeerEmpty", p = none ? null : findPlace(q.offset_peer);
        if (!none && !p) return bad(`getDialogs continues from the unknown chat ${show(q.offset_peer)}`);
        const l = follow(rows, cursor(rows, q, none && !q.offset_date, p), q.limit);
        shown = l.length ? rows.indexOf(l.at(-1)!) + 1 : shown;
        return { _: l.length === rows.length && r.bool() ? "messages.dialogs" : "messages.dialogsSlice", count: rows.length, dialogs: l.map(dialogOf), messages: r.shuffle(l.map((x) => x.m)), ...known() };
      },
      page: (c, after, limit) => c.getChats({ from, after, limit }),
      keys: (v) => v.map(itemKey),
      last: (v) => v.at(-1),
    });
    const pinned = dialogRows(some(places));
    lists.push({
      name: "getPinnedChats " + from,
      rows: pinned,
      grow: () => {},
      serve: (q) => q._ === "messages.getPinnedDialogs" && q.folder_id === folder ? { _: "messages.peerDialogs", dialogs: pinned.map(dialogOf), messages: r.shuffle(pinned.map((x) => x.m)), ...known(), state: { _: "updates.state", pts: acc.pts, qts: 0, date: acc.date, seq: acc.seq, unread_count: 0 } } : undefined,
      page: (c, after) => after ? Promise.resolve([]) : c.getPinnedChats(from),
      keys: (v) => v.map(itemKey),
      last: (v) => v.length ? 1 : undefined,
    });
  }
  {
    const self = { kind: "user", id: 77, peer: { _: "peerUser", user_id: 77n } };
    const rows = some(places).map((p): Row => {
      const top = ++common, at = tick();
      return { key: `${p.id}:${top}@${at}`, place: p, top, date: at, m: { ...message(self, top, at), saved_peer_id: p.peer } };
    }).sort(desc);
    lists.push({
      name: "getSavedChats",
      rows,
      grow: () => {},
      serve: (q) => {
        if (q._ !== "messages.getSavedDialogs") return;
        const none = q.offset_peer._ === "inputPeerEmpty", p = none ? null : findPlace(q.offset_peer);
        if (!none && !p) return bad(`getSavedDialogs continues from the unknown chat ${show(q.offset_peer)}`);
        const l = follow(rows, cursor(rows, q, none, p), q.limit);
        return { _: "messages.savedDialogsSlice", count: rows.length, dialogs: l.map((x) => ({ _: "savedDialog", peer: x.place.peer, top_message: x.top })), messages: r.shuffle(l.map((x) => x.m)), ...known() };
      },
      page: (c, a, limit) => c.getSavedChats({ limit, ...(a ? { offsetId: a.lastMessage.id, offsetDate: a.lastMessage.date, offsetChatId: a.chat.id } : {}) }),
      keys: (v) => v.chats.map(itemKey),
      last: (v) => v.chats.at(-1),
      total: (v) => v.total,
    });
  }
  const messagesOf = (p: any, l: Row[], rows: Row[]) => p.kind === "channel" ? { _: "messages.channelMessages", pts: acc.channel(p.raw).pts, count: rows.length, messages: l.map((x) => x.m), topics: [], ...known() } : l.length === rows.length && r.bool() ? { _: "messages.messages", messages: l.map((x) => x.m), topics: [], ...known() } : { _: "messages.messagesSlice", count: rows.length, messages: l.map((x) => x.m), topics: [], ...known() };
  for (const [name, method] of [["getHistory", "messages.getHistory"], ["searchMessages", "messages.search"]] as const) {
    const p = r.pick(places), rows: Row[] = [];
    const add = () => {
      const id = newId(p) + (p.kind === "channel" ? 1000 : 0), at = tick();
      rows.unshift({ key: `${p.id}/${id}@${at}`, top: id, date: at, m: message(p, id, at) });
    };
    for (let i = r.int(0, 25); i > 0; i--) add();
    lists.push({
      name,
      rows,
      grow: () => rows.length && add(),
      serve: (q) => {
        if (q._ !== method) return;
        if (findPlace(q.peer) !== p) return bad(`${q._} asks for ${show(q.peer)} instead of ${show(p.input)}`);
        const i = q.offset_id ? rows.findIndex((x) => x.top < q.offset_id) : 0;
        const at = (i < 0 ? rows.length : i) + q.add_offset;
        return messagesOf(p, follow(rows, at, q.limit), rows);
      },
      page: (c, a, limit) => name === "getHistory" ? c.getHistory(p.id, { limit, offsetId: a }) : c.searchMessages({ chatId: p.id, limit, offset: a }),
      keys: (v) => (v.messages ?? v).map((m: any) => `${m.chat.id}/${m.id}@${m.date}`),
      last: (v) => (v.messages ?? v).at(-1)?.id,
      total: name === "getHistory" ? undefined : (v) => v.count,
    });
  }
  // members
  const rights = { _: "chatAdminRights", change_info: true }, banned = (on: boolean) => ({ _: "chatBannedRights", view_messages: on || undefined, send_media: true, until_date: 5 });
  const roster = (kind: string) => some(users, 1).map((u, i): Row => {
    const s = kind === "group" ? r.pick(["member", "administrator", ...(i ? [] : ["creator"])]) : r.pick(["member", "administrator", "restricted", ...(i ? [] : ["creator"])]);
    const g = kind === "group" ? "chatParticipant" : "channelParticipant";
    const o: any = s === "member"
      ? { _: g, user_id: u, inviter_id: 77n, date: 5 }
      : s === "administrator"
      ? { _: g + "Admin", user_id: u, inviter_id: 77n, promoted_by: 77n, date: 5, admin_rights: rights }
      : s === "creator"
      ? { _: g + "Creator", user_id: u, admin_rights: rights }
      : { _: g + "Banned", peer: { _: "peerUser", user_id: u }, kicked_by: 77n, date: 5, banned_rights: banned(false) };
    if (kind === "group") delete o.admin_rights, delete o.promoted_by;
    return { key: `${u}=${s}`, user: u, status: s, o };
  });
  const memberKey = (m: any) => `${m.member.id}=${m.status}`;
  const ch = r.pick(channels), gr = r.pick(groups), chRows = roster("channel"), grRows = roster("group");
  const left = users.find((u) => !chRows.some((x) => x.user === u)), gone = r.bool();
  const leftObject = left === undefined ? null : gone ? { _: "channelParticipantLeft", peer: { _: "peerUser", user_id: left } } : { _: "channelParticipantBanned", peer: { _: "peerUser", user_id: left }, kicked_by: 77n, date: 5, banned_rights: banned(true) };
  const chPlace = places.find((p) => p.kind === "channel" && p.raw === ch)!, grPlace = places.find((p) => p.kind === "group" && p.raw === gr)!;
  const serveMembers = (q: any) => {
    if (q._ === "channels.getParticipants") {
      if (theChannel(q.channel) !== ch) return bad(`members of ${show(q.channel)}`);
      const admins = q.filter._ === "channelParticipantsAdmins", l = admins ? chRows.filter((x) => x.status === "administrator" || x.status === "creator") : chRows;
      return { _: "channels.channelParticipants", count: l.length, participants: follow(l, q.offset, q.limit).map((x) => x.o), ...known() };
    }
    if (q._ === "channels.getParticipant") {
      if (theChannel(q.channel) !== ch) return bad(`a member of ${show(q.channel)}`);
      const o = q.participant.user_id === left ? leftObject : chRows.find((x) => x.user === q.participant.user_id && q.participant.access_hash === acc.user(x.user).access_hash)?.o;
      return o ? { _: "channels.channelParticipant", participant: o, ...known() } : bad(`the member ${show(q.participant)}`);
    }
    if (q._ === "messages.getFullChat") {
      if (q.chat_id !== gr) return bad(`members of group ${q.chat_id}`);
      return { _: "messages.chatFull", full_chat: { _: "chatFull", id: gr, about: "", participants: { _: "chatParticipants", chat_id: gr, participants: grRows.map((x) => x.o), version: 1 }, notify_settings: { _: "peerNotifySettings" } }, ...known() };
    }
  };
  let counted = 0;
  lists.push({ name: "getChatMembers", rows: chRows, grow: () => {}, serve: serveMembers, page: (c, a, limit) => c.getChatMembers(chPlace.id, { offset: a, limit }).then((v: any) => (counted = a ? counted + v.length : v.length, v)), keys: (v) => v.map(memberKey), last: (v) => v.length ? counted : undefined });
  const once = (name: string, rows: Row[], f: (c: any) => Promise<any[]>): List => ({ name, rows, grow: () => {}, serve: serveMembers, page: (c, a) => a ? Promise.resolve([]) : f(c), keys: (v) => v.map(memberKey), last: (v) => v.length ? 1 : undefined });
  const lead = (l: Row[]) => l.filter((x) => x.status === "administrator" || x.status === "creator");
  lists.push(once("getChatMembers of a group", grRows, (c) => c.getChatMembers(grPlace.id)));
  lists.push(once("getChatAdministrators", lead(chRows), (c) => c.getChatAdministrators(chPlace.id)));
  lists.push(once("getChatAdministrators of a group", lead(grRows), (c) => c.getChatAdministrators(grPlace.id)));
  const one = async (c: any, id: number, l: Row[]) => {
    const out = [];
    for (const x of l) out.push(await c.getChatMember(id, Number(x.user)));
    return out;
  };
  lists.push(once("getChatMember", [...chRows, ...(left === undefined ? [] : [{ key: `${left}=${gone ? "left" : "banned"}`, user: left }])], (c) => one(c, chPlace.id, [...chRows, ...(left === undefined ? [] : [{ key: "", user: left }])])));
  lists.push(once("getChatMember of a group", grRows, (c) => one(c, grPlace.id, grRows)));
  {
    // by identifier, the highest first
    const u = r.pick(users), l = some([...groups.map((g) => ({ p: places.find((p) => p.kind === "group" && p.raw === g)!, o: groupObject(g) })), ...channels.filter((c) => !groups.includes(c)).map((c) => ({ p: places.find((p) => p.kind === "channel" && p.raw === c)!, o: acc.chat(c) }))]).sort((a, b) => a.p.raw < b.p.raw ? 1 : -1);
    const rows = l.map((x): Row => ({ key: String(x.p.id), o: x.o, raw: x.p.raw }));
    lists.push({
      name: "getCommonChats",
      rows,
      grow: () => {},
      serve: (q) => {
        if (q._ !== "messages.getCommonChats") return;
        if (theUser(q.user_id) !== u) return bad(`common chats with ${show(q.user_id)}`);
        const l = rows.filter((x) => !q.max_id || x.raw < q.max_id).slice(0, q.limit);
        return { _: "messages.chatsSlice", count: rows.length, chats: l.map((x) => x.o) };
      },
      page: (c, a, limit) => c.getCommonChats(Number(u), { limit, fromChatId: a }),
      keys: (v) => v.map((x: any) => String(x.id)),
      last: (v) => v.at(-1)?.id,
    });
  }
  {
    const p = r.pick(places.filter((p) => p.kind !== "user")), rows = some(users).map((u): Row => ({ date: tick(), user: u, top: Number(u), key: "" })).sort(desc);
    for (const x of rows) x.key = `${x.user}@${x.date}`;
    lists.push({
      name: "getJoinRequests",
      rows,
      grow: () => {},
      serve: (q) => {
        if (q._ !== "messages.getChatInviteImporters") return;
        if (findPlace(q.peer) !== p || !q.requested) return bad(`join requests of ${show(q.peer)}`);
        const none = q.offset_user._ === "inputUserEmpty", u = none ? null : theUser(q.offset_user);
        if (u === undefined) return bad(`join requests continue from ${show(q.offset_user)}`);
        const i = none ? 0 : rows.findIndex((x) => x.user === u && x.date === q.offset_date) + 1;
        if (!none && !i) return bad(`join requests continue from ${show(q.offset_user)} at ${q.offset_date}`);
        return { _: "messages.chatInviteImporters", count: rows.length, importers: follow(rows, i, q.limit).map((x) => ({ _: "chatInviteImporter", requested: true, user_id: x.user, date: x.date, about: "a" })), users: known().users };
      },
      page: (c, a, limit) => c.getJoinRequests(p.id, { limit, ...(a ? { fromDate: a.date, fromUserId: a.from.id } : {}) }),
      keys: (v) => v.map((x: any) => `${x.from.id}@${x.date}`),
      last: (v) => v.at(-1),
    });
  }
  // lists by a key the service hands out
  const keyed = (name: string, method: string, rows: Row[], target: any, reply: (l: Row[], next: string | undefined) => any, call: (c: any, p: any) => Promise<any>, keys: (v: any) => string[]) => {
    const marks = new Map<string, number>();
    lists.push({
      name,
      rows,
      grow: () => {},
      serve: (q) => {
        if (q._ !== method) return;
        if (target && findPlace(q.peer) !== target) return bad(`${q._} asks for ${show(q.peer)}`);
        const at = q.offset ? marks.get(q.offset) : 0;
        if (at === undefined) return bad(`${q._} continues from ${show(q.offset)}`);
        const l = follow(rows, at, q.limit), more = at + l.length < rows.length, mark = `k${at + l.length}_${r.int(1, 999)}`;
        if (more) marks.set(mark, at + l.length);
        return reply(l, more ? mark : undefined);
      },
      page: (c, offset, limit) => call(c, { limit, offset }),
      keys,
      last: (v) => v.nextOffset,
      total: (v) => v.count,
    });
  };
  {
    const p = r.pick(places), who = some(places.filter((x) => x.kind !== "group" && x !== p));
    keyed("getPollVoters", "messages.getPollVotes", who.map((x) => ({ key: `${x.id}:${x.raw % 4n}`, x })), p, (l, next_offset) => ({ _: "messages.votesList", count: who.length, votes: l.map(({ x }) => r.bool() ? { _: "messagePeerVote", peer: x.peer, option: enc.encode(String(x.raw % 4n)), date: 5 } : { _: "messagePeerVoteMultiple", peer: x.peer, options: [enc.encode(String(x.raw % 4n))], date: 5 }), ...known(), next_offset }), (c, o) => c.getPollVoters(p.id, 9, o), (v) => v.voters.map((x: any) => `${x.voter.id}:${x.optionIndexes.join()}`));
    const reactors = some(places.filter((x) => x.kind !== "group"));
    keyed("getMessageReactions", "messages.getMessageReactionsList", reactors.map((x) => ({ key: `${x.id}:👍${x.raw % 3n}`, x })), p, (l, next_offset) => ({ _: "messages.messageReactionsList", count: reactors.length, reactions: l.map(({ x }) => ({ _: "messagePeerReaction", peer_id: x.peer, date: 5, reaction: { _: "reactionEmoji", emoticon: "👍" + x.raw % 3n } })), users: known().users, chats: channels.map((c) => acc.chat(c)), next_offset }), (c, o) => c.getMessageReactions(p.id, 9, o), (v) => v.reactions.map((x: any) => `${x.chat.id}:${x.reaction.emoji}`));
  }
  const numbered = (name: string, method: string, rows: Row[], reply: (l: Row[]) => any, call: (c: any, p: any) => Promise<any>, list: (v: any) => any[], key: (x: any) => string, check: (q: any) => boolean) => {
    let n = 0;
    lists.push({
      name,
      rows,
      grow: () => {},
      serve: (q) => q._ !== method ? undefined : !check(q) ? bad(`${name} asks for ${show(q)}`) : reply(follow(rows, q.offset, q.limit)),
      page: async (c, offset, limit) => {
        const v = await call(c, { limit, offset });
        n = (offset ?? 0) + list(v).length;
        return v;
      },
      keys: (v) => list(v).map(key),
      last: (v) => list(v).length ? n : undefined,
      total: (v) => v.count,
    });
  };
  {
    const blocked = some(users).map((u): Row => ({ key: String(u), u })), total = blocked.length, stories = r.bool(0.3);
    numbered("getBlockedUsers", "contacts.getBlocked", blocked, (l) => l.length === total && r.bool() ? { _: "contacts.blocked", blocked: l.map(({ u }) => ({ _: "peerBlocked", peer_id: { _: "peerUser", user_id: u }, date: 5 })), ...known() } : { _: "contacts.blockedSlice", count: total, blocked: l.map(({ u }) => ({ _: "peerBlocked", peer_id: { _: "peerUser", user_id: u }, date: 5 })), ...known() }, (c, o) => c.getBlockedUsers({ ...o, isBlockedFromViewingStories: stories || undefined }), (v) => v.blockedUsers, (x) => String(x.user.id), (q) => !!q.my_stories_from === stories);
    const u = r.pick(users), photos = Array.from({ length: r.int(0, 15) }, (_, i): Row => ({ key: String(1000 + i), i }));
    numbered("getProfilePhotos", "photos.getUserPhotos", photos, (l) => ({ _: "photos.photosSlice", count: photos.length, photos: l.map(({ i }) => ({ _: "photo", id: BigInt(i + 1), access_hash: 1n, file_reference: new Uint8Array(2), date: 1000 + i, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 1000 + i, h: 9, size: 9 }] })), users: known().users }), (c, o) => c.getProfilePhotos(Number(u), o), (v) => v.photos, (x) => String(x.width), (q) => theUser(q.user_id) === u);
  }
  {
    const p = r.pick(places.filter((x) => x.kind === "channel")), rows = Array.from({ length: r.int(0, 12) }, (_, i): Row => {
      const top = 3000 + r.int(0, 50) * 20 + i, at = tick();
      return { key: `${50 + i}:${top}@${at}`, place: 50 + i, top, date: at, m: message(p, top, at) };
    }).sort(desc);
    lists.push({
      name: "getTopics",
      rows,
      grow: () => {},
      serve: (q) => {
        if (q._ !== "messages.getForumTopics") return;
        if (findPlace(q.peer) !== p) return bad(`topics of ${show(q.peer)}`);
        const l = follow(rows, cursor(rows, q, !q.offset_topic, q.offset_topic), q.limit);
        return { _: "messages.forumTopics", count: rows.length, topics: l.map((x) => ({ _: "forumTopic", id: x.place, date: 5, peer: p.peer, title: "T", icon_color: 1, top_message: x.top, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, from_id: { _: "peerUser", user_id: users[0] }, notify_settings: { _: "peerNotifySettings" } })), messages: r.shuffle(l.map((x) => x.m)), ...known(), pts: 1 };
      },
      page: (c, a, limit) => c.getTopics(p.id, { limit, ...(a ? { offsetId: a.lastMessage.id, offsetDate: a.lastMessage.date, offsetTopicId: a.topic.id } : {}) }),
      keys: (v) => v.items.map((x: any) => `${x.topic.id}:${x.lastMessage?.id}@${x.lastMessage?.date}`),
      last: (v) => v.items.at(-1),
      total: (v) => v.count,
    });
    let event = r.big(50);
    const log: Row[] = [];
    const add = () => {
      event += BigInt(r.int(1, 9));
      log.unshift({ key: `${event}`, event });
    };
    for (let i = r.int(0, 15); i > 0; i--) add();
    lists.push({
      name: "getRecentActions",
      rows: log,
      grow: () => log.length && add(),
      serve: (q) => {
        if (q._ !== "channels.getAdminLog") return;
        if (theChannel(q.channel) !== p.raw) return bad(`log of ${show(q.channel)}`);
        const l = log.filter((x) => !q.max_id || x.event < q.max_id).slice(0, q.limit);
        return { _: "channels.adminLogResults", events: l.map((x) => ({ _: "channelAdminLogEvent", id: x.event, date: 5, user_id: users[0], action: { _: "channelAdminLogEventActionChangeTitle", prev_value: "a", new_value: "b" } })), ...known() };
      },
      page: (c, a, limit) => c.getRecentActions(p.id, { limit, offsetId: a }),
      keys: (v) => v.map((x: any) => x.id),
      last: (v) => v.at(-1)?.id,
    });
    const q0 = r.pick(places.filter((x) => x.kind !== "user")), links = Array.from({ length: r.int(0, 12) }, (_, i): Row => ({ key: "https://t.me/+l" + i, date: tick() }));
    lists.push({
      name: "getCreatedInviteLinks",
      rows: links,
      grow: () => {},
      serve: (q) => {
        if (q._ !== "messages.getExportedChatInvites") return;
        if (findPlace(q.peer) !== q0) return bad(`links of ${show(q.peer)}`);
        const i = q.offset_link ? links.findIndex((x) => x.key === q.offset_link && x.date === q.offset_date) + 1 : 0;
        if (q.offset_link && !i) return bad(`links continue from ${q.offset_link} at ${q.offset_date}`);
        return { _: "messages.exportedChatInvites", count: links.length, invites: follow(links, i, q.limit).map((x) => ({ _: "chatInviteExported", link: x.key, admin_id: 77n, date: x.date })), users: known().users };
      },
      page: (c, a, limit) => c.getCreatedInviteLinks(q0.id, { limit, ...(a ? { afterInviteLink: a, afterDate: links.find((x) => x.key === a)!.date } : {}) }),
      keys: (v) => v.map((x: any) => x.inviteLink),
      last: (v) => v.at(-1)?.inviteLink,
    });
  }

  // --- the service
  let current: List | null = null;
  const errors: string[] = [];
  site.on = (c) => {
    const q: any = c.call;
    if (!current || q._.startsWith("updates.") || q._ === "ping") return undefined;
    let v: any;
    if (/^(messages|channels)\.getMessages$/.test(q._)) v = { _: "messages.messages", messages: [], topics: [], ...known() };
    else v = current.serve(q);
    if (v === undefined) return undefined;
    if (v.error) return v;
    try {
      return { result: TL.encodeType(API, API.d[q._][2], v) };
    } catch (e) {
      errors.push(`${q._}: ${e}`);
      return { error: [500, "INTERNAL"] as [number, string] };
    }
  };
  const disk = new Disk();
  const auth = site.authString(site.login(acc)), params: any = { persistCache: true };
  let p = site.proc({ disk, params: { authString: auth, ...params } });
  await run(p.client.start(), 600000, "start()");
  await advance(20000);
  site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], ...known(), date: acc.date, seq: 0 });
  await advance(lat + 2000);
  for (const l of r.shuffle(lists).slice(0, r.int(4, 10))) {
    current = l;
    const limit = r.pick([undefined, 1, 2, 3, 5, 100]);
    const want = l.rows.map((x) => x.key), got: string[] = [];
    let after: any, pages = 0, shape = "";
    while (true) {
      if (r.bool(0.04)) {
        shape += "R";
        p.kill();
        p = site.proc({ disk, params });
        await run(p.client.start(), 600000, "start() again");
        await advance(10000);
        site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], ...known(), date: acc.date, seq: 0 });
        await advance(lat + 2000);
      }
      if (pages && r.bool(0.3)) l.grow(), shape += "+";
      let v: any;
      try {
        v = await run(l.page(p.client, after, limit), 300000, l.name);
      } catch (e) {
        t.ensure(!errors.length, "harness", () => errors.join("; "));
        t.fail(`failed:${l.name}`, `${l.name} fails on page ${pages + 1} with ${show(e)}${problem ? ` as ${problem}` : ""}`);
      }
      t.ensure(!errors.length, "harness", () => errors.join("; "));
      t.ensure(!problem, `asked:${l.name}`, () => `${l.name}: ${problem}`);
      const keys = l.keys(v);
      got.push(...keys);
      pages++;
      shape += keys.length > 9 ? "*" : keys.length;
      t.ensure(limit === undefined || keys.length <= limit || pages === 1 && l.page.length < 3, `limit:${l.name}`, () => `${l.name} returns ${keys.length} entries for the limit ${limit}`);
      if (l.total && l.rows.length === want.length) t.ensure(l.total(v) === want.length, `count:${l.name}`, () => `${l.name} counts ${l.total!(v)} of ${want.length} entries`);
      const cont = l.last(v);
      if (!keys.length || cont === undefined || pages > want.length + 3) break;
      after = cont;
    }
    t.ensure(got.join(" ") === want.join(" "), `list:${l.name}`, () => `${l.name} by pages of ${limit ?? "the default size"} gives ${show(got, 700)}, the service holds ${show(want, 700)}`);
    t.count("lists walked");
    t.count("pages", pages);
    t.count("entries", got.length);
    t.state("walks", `${l.name}/${limit}/${shape}`);
  }
  current = null;
  t.sig(`${users.length}/${channels.length}/${groups.length}/${t.index}`);
  p.kill();
});
await ck.main();
