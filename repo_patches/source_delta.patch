From ecceada7453e5479f2226dd4a0dce7f0b67490ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 01/51] fix: do not wrap remote incoming window below zero

---
 src/session.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..ea2602b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1130,11 +1130,12 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // `next-incoming-id` is not set until peer has seen our `Begin` frame,
+        // in that case peer uses initial outgoing id.
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = flow.incoming_window().saturating_sub(in_flight);
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
-- 
2.43.0


From 3eacb932feb7a487a20d266c6a7caab761da1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 02/51] fix: use own initial delivery count for sender link, do
 not wrap link credit below zero

---
 src/session.rs | 29 +++++++++++++++--------------
 src/sndlink.rs | 13 +++++++------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ea2602b..a6f3c15 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -239,7 +239,10 @@ impl Session {
 enum SenderLinkState {
     Established(EstablishedSenderLink),
     OpeningRemote,
-    Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
+    Opening(
+        SequenceNo,
+        Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
+    ),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
@@ -256,12 +259,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl SenderLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, SenderLinkState::Opening(_))
-    }
-}
-
 impl ReceiverLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, ReceiverLinkState::OpeningLocal(_))
@@ -443,7 +440,12 @@ impl SessionInner {
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
-        entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
+        // sender must provide initial delivery count
+        let delivery_count = *frame.0.initial_delivery_count.get_or_insert(0);
+        entry.insert(Either::Left(SenderLinkState::Opening(
+            delivery_count,
+            Some(tx),
+        )));
         log::trace!(
             "{}: Local sender link opening: {:?} hnd:{token:?}",
             self.tag(),
@@ -502,7 +504,7 @@ impl SessionInner {
     ) {
         if let Some(Either::Left(link)) = self.links.get_mut(id as usize) {
             match link {
-                SenderLinkState::Opening(_) => {
+                SenderLinkState::Opening(..) => {
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -872,7 +874,7 @@ impl SessionInner {
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
-                    if item.is_opening() {
+                    if let SenderLinkState::Opening(delivery_count, _) = *item {
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
                             self.sink.tag(),
@@ -881,7 +883,6 @@ impl SessionInner {
                         );
 
                         self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
                         let link = Cell::new(SenderLinkInner::new(
                             *index,
                             name.clone(),
@@ -897,7 +898,7 @@ impl SessionInner {
                             SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
                         );
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        if let SenderLinkState::Opening(_, Some(tx)) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
                     }
@@ -956,7 +957,7 @@ impl SessionInner {
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
                 Either::Left(link) => match link {
-                    SenderLinkState::Opening(tx) => {
+                    SenderLinkState::Opening(_, tx) => {
                         if let Some(tx) = tx.take() {
                             let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
                             let _ = tx.send(Err(err));
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..a2467ba 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -23,6 +23,7 @@ pub(crate) struct SenderLinkInner {
     pub(crate) session: Session,
     remote_handle: Handle,
     delivery_count: SequenceNo,
+    initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
     pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
@@ -189,6 +190,7 @@ impl SenderLinkInner {
             name,
             delivery_count,
             max_message_size,
+            initial_delivery_count: delivery_count,
             session: Session::new(session),
             remote_handle: handle,
             link_credit: 0,
@@ -292,18 +294,17 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // delivery-count is not set until receiver has seen our `Attach` frame
+            let delivery_count = flow.delivery_count().unwrap_or(self.initial_delivery_count);
+            let new_credit =
+                credit.saturating_sub(self.delivery_count.wrapping_sub(delivery_count));
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
                 self.session.tag(),
                 self.name,
                 new_credit,
-                flow.delivery_count().unwrap_or(0),
+                delivery_count,
                 self.delivery_count,
                 self.pending_transfers.len(),
                 self.link_credit
-- 
2.43.0


From 467d83be6687e9d46e74291c9c2821dc9f879f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/51] fix: drop pending transfers of the detached sender link
 only

---
 src/session.rs | 2 +-
 src/sndlink.rs | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index a6f3c15..67e46e0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -978,7 +978,7 @@ impl SessionInner {
 
                         // drop pending transfers
                         let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
+                        let handle = link.inner.get_ref().id() as Handle;
                         while idx < self.pending_transfers.len() {
                             if self.pending_transfers[idx].link_handle == handle {
                                 let tr = self.pending_transfers.remove(idx).unwrap();
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a2467ba..a1e0863 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
-- 
2.43.0


From 3f120972c4f9454f95956ab8a0c3eb1494d8262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/51] fix: identify links by name and direction, never by a
 guessed handle

---
 src/session.rs | 163 ++++++++++++++++++++++++-------------------------
 src/sndlink.rs |   4 --
 2 files changed, 80 insertions(+), 87 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 67e46e0..6239a3b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -42,6 +42,9 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    // locally initiated links, waiting for `Attach` from the peer
+    opening_senders: HashMap<ByteString, usize>,
+    opening_receivers: HashMap<ByteString, usize>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -259,12 +262,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl ReceiverLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, ReceiverLinkState::OpeningLocal(_))
-    }
-}
-
 bitflags::bitflags! {
     #[derive(Copy, Clone, Debug)]
     struct Flags: u8 {
@@ -298,6 +295,8 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            opening_senders: HashMap::default(),
+            opening_receivers: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             error: None,
@@ -353,6 +352,8 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.opening_senders.clear();
+        self.opening_receivers.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -454,7 +455,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_senders.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -587,9 +588,7 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
+        self.remove_link(token);
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -669,7 +668,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_receivers.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -730,9 +729,7 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
+                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -751,9 +748,6 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
@@ -871,70 +865,71 @@ impl SessionInner {
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
 
-        if let Some(index) = self.links_by_name.get(name) {
-            match self.links.get_mut(*index) {
-                Some(Either::Left(item)) => {
-                    if let SenderLinkState::Opening(delivery_count, _) = *item {
-                        log::trace!(
-                            "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
-                            self.sink.tag(),
-                            attach.handle(),
-                            self.remote_handles.contains_key(&attach.handle())
-                        );
+        // link is identified by the name and direction
+        let index = match attach.0.role {
+            Role::Receiver => self.opening_senders.remove(name),
+            Role::Sender => self.opening_receivers.remove(name),
+        };
+        let Some(index) = index else {
+            // cannot handle remote attach
+            return false;
+        };
+        self.remote_handles.insert(attach.handle(), index);
 
-                        self.remote_handles.insert(attach.handle(), *index);
-                        let link = Cell::new(SenderLinkInner::new(
-                            *index,
-                            name.clone(),
-                            attach.handle(),
-                            delivery_count,
-                            cell,
-                            attach
-                                .max_message_size()
-                                .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
-                        ));
-                        let local_sender = mem::replace(
-                            item,
-                            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-                        );
+        match self.links.get_mut(index) {
+            Some(Either::Left(item)) => {
+                if let SenderLinkState::Opening(delivery_count, _) = *item {
+                    log::trace!(
+                        "{}: Local sender link attached: {name:?} {index} -> {}",
+                        self.sink.tag(),
+                        attach.handle(),
+                    );
 
-                        if let SenderLinkState::Opening(_, Some(tx)) = local_sender {
-                            let _ = tx.send(Ok(link));
-                        }
-                    }
-                }
-                Some(Either::Right(item)) => {
-                    if item.is_opening() {
-                        log::trace!(
-                            "{}: Local receiver link attached: {name:?} {index} -> {}",
-                            self.sink.tag(),
-                            attach.handle()
-                        );
-                        if let ReceiverLinkState::OpeningLocal(opt_item) = item {
-                            if let Some((link, tx)) = opt_item.take() {
-                                self.remote_handles.insert(attach.handle(), *index);
+                    let link = Cell::new(SenderLinkInner::new(
+                        index,
+                        name.clone(),
+                        attach.handle(),
+                        delivery_count,
+                        cell,
+                        attach
+                            .max_message_size()
+                            .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
+                    ));
+                    let local_sender = mem::replace(
+                        item,
+                        SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
+                    );
+                    self.links_by_name.insert(name.clone(), index);
 
-                                *item = ReceiverLinkState::Established(
-                                    EstablishedReceiverLink::new(link.clone()),
-                                );
-                                let _ = tx.send(Ok(ReceiverLink::new(link)));
-                            } else {
-                                // TODO: close session
-                                log::error!("{}: Inconsistent session state, bug", self.tag());
-                            }
-                        }
+                    if let SenderLinkState::Opening(_, Some(tx)) = local_sender {
+                        let _ = tx.send(Ok(link));
                     }
                 }
-                _ => {
-                    // TODO: error in proto, have to close connection
-                    log::trace!("Protocol error");
+            }
+            Some(Either::Right(item)) => {
+                if let ReceiverLinkState::OpeningLocal(opt_item) = item {
+                    log::trace!(
+                        "{}: Local receiver link attached: {name:?} {index} -> {}",
+                        self.sink.tag(),
+                        attach.handle()
+                    );
+                    if let Some((link, tx)) = opt_item.take() {
+                        *item = ReceiverLinkState::Established(EstablishedReceiverLink::new(
+                            link.clone(),
+                        ));
+                        let _ = tx.send(Ok(ReceiverLink::new(link)));
+                    } else {
+                        // TODO: close session
+                        log::error!("{}: Inconsistent session state, bug", self.tag());
+                    }
                 }
             }
-            true
-        } else {
-            // cannot handle remote attach
-            false
+            None => {
+                // TODO: error in proto, have to close connection
+                log::trace!("Protocol error");
+            }
         }
+        true
     }
 
     #[allow(clippy::too_many_lines)]
@@ -943,15 +938,12 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
-            frame.handle() as usize
         } else {
             // should not happen, error
             log::info!("{}: Detaching unknown link: {frame:?}", self.tag());
             return Action::None;
         };
 
-        let handle = frame.handle();
         let mut action = Action::None;
 
         let remove = if let Some(link) = self.links.get_mut(idx) {
@@ -973,9 +965,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         let mut idx = 0;
                         let handle = link.inner.get_ref().id() as Handle;
@@ -1081,14 +1070,22 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
-            self.remote_handles.remove(&handle);
+            self.remove_link(idx);
         }
         action
     }
 
+    /// Remove link and everything that refers to it
+    fn remove_link(&mut self, idx: usize) {
+        if self.links.contains(idx) {
+            self.links.remove(idx);
+        }
+        self.links_by_name.retain(|_, id| *id != idx);
+        self.opening_senders.retain(|_, id| *id != idx);
+        self.opening_receivers.retain(|_, id| *id != idx);
+        self.remote_handles.retain(|_, id| *id != idx);
+    }
+
     fn settle_deliveries(&mut self, disp: &Disposition) {
         let from = disp.first();
         let to = disp.last();
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a1e0863..42a9608 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From 349b4e2d66f7eef453ae2053a9601548ed928bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/51] fix: use handle and delivery count of the peer for
 local receiver link

---
 src/rcvlink.rs | 6 ++++++
 src/session.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..68ab767 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -246,6 +246,12 @@ impl ReceiverLinkInner {
         }
     }
 
+    /// Peer confirmed locally initiated link
+    pub(crate) fn remote_attached(&mut self, frame: &Attach) {
+        self.remote_handle = frame.handle();
+        self.delivery_count = frame.initial_delivery_count().unwrap_or(0);
+    }
+
     fn wake(&self) {
         self.reader_task.wake();
     }
diff --git a/src/session.rs b/src/session.rs
index 6239a3b..3fbe01a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -914,6 +914,7 @@ impl SessionInner {
                         attach.handle()
                     );
                     if let Some((link, tx)) = opt_item.take() {
+                        link.get_mut().remote_attached(attach);
                         *item = ReceiverLinkState::Established(EstablishedReceiverLink::new(
                             link.clone(),
                         ));
-- 
2.43.0


From bafe1f2ad8591ccac23f47bc24da232804573797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 06/51] fix: answer peer's detach of a link that is not
 confirmed yet

---
 src/cell.rs       |   4 +
 src/connection.rs |   9 +-
 src/dispatcher.rs |   7 +-
 src/rcvlink.rs    |   4 +-
 src/session.rs    | 253 +++++++++++++++++++++++++++++-----------------
 5 files changed, 173 insertions(+), 104 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index cfcaadb..d369a91 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -34,6 +34,10 @@ impl<T> Cell<T> {
         }
     }
 
+    pub(crate) fn ptr_eq(&self, other: &Self) -> bool {
+        Rc::ptr_eq(&self.inner, &other.inner)
+    }
+
     pub(crate) fn get_ref(&self) -> &T {
         unsafe { &*self.inner.as_ref().get() }
     }
diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..4c39573 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -424,11 +423,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..68e21a9 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -307,11 +307,11 @@ where
                 | ControlFrameKind::RemoteDetachReceiver(_, link) => {
                     let _ = link.close_with_error(err);
                 }
-                ControlFrameKind::AttachSender(frm, _, link) => {
+                ControlFrameKind::AttachSender(_, _, link) => {
                     frame
                         .session_cell()
                         .get_mut()
-                        .detach_unconfirmed_sender_link(frm, &link.inner, Some(err));
+                        .detach_unconfirmed_sender_link(&link.inner, Some(err));
                 }
                 ControlFrameKind::Flow(_, link) | ControlFrameKind::RemoteDetachSender(_, link) => {
                     let _ = link.close_with_error(err);
@@ -341,8 +341,7 @@ where
                         let result = fut.await;
                         if let Err(err) = result {
                             let _ = link.close_with_error(Error::from(err)).await;
-                        } else {
-                            link.confirm_receiver_link(response);
+                        } else if link.confirm_receiver_link(response) {
                             link.set_link_credit(50);
                         }
                     });
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 68ab767..823dbfd 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -83,7 +83,7 @@ impl ReceiverLink {
         self.inner.get_ref().error.as_ref()
     }
 
-    pub(crate) fn confirm_receiver_link(&self, response: Attach) {
+    pub(crate) fn confirm_receiver_link(&self, response: Attach) -> bool {
         let inner = self.inner.get_mut();
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
@@ -91,7 +91,7 @@ impl ReceiverLink {
             .session
             .inner
             .get_mut()
-            .confirm_receiver_link(inner.handle, response, size);
+            .confirm_receiver_link(&self.inner, response, size)
     }
 
     pub fn set_link_credit(&self, credit: u32) {
diff --git a/src/session.rs b/src/session.rs
index 3fbe01a..15513b0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -241,7 +241,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(SenderLink, ByteString),
     Opening(
         SequenceNo,
         Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
@@ -251,7 +251,7 @@ enum SenderLinkState {
 
 #[derive(Debug)]
 enum ReceiverLinkState {
-    Opening(Box<Option<(Cell<ReceiverLinkInner>, Option<Source>)>>),
+    Opening(Cell<ReceiverLinkInner>),
     OpeningLocal(
         Option<(
             Cell<ReceiverLinkInner>,
@@ -359,6 +359,9 @@ impl SessionInner {
                 Either::Left(SenderLinkState::Established(link)) => {
                     link.inner.get_mut().remote_detached(err.clone());
                 }
+                Either::Left(SenderLinkState::OpeningRemote(link, _)) => {
+                    link.inner.get_mut().remote_detached(err.clone());
+                }
                 Either::Left(SenderLinkState::Closing(link)) => {
                     if let Some(tx) = link.take() {
                         let _ = tx.send(Err(err.clone()));
@@ -367,7 +370,25 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
-                _ => (),
+                Either::Right(ReceiverLinkState::Opening(inner)) => {
+                    ReceiverLink::new(inner.clone()).remote_detached(None);
+                }
+                Either::Right(ReceiverLinkState::OpeningLocal(item)) => {
+                    if let Some((inner, tx)) = item.take() {
+                        inner.get_mut().detached();
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
+                Either::Right(ReceiverLinkState::Closing(link)) => {
+                    if let Some(tx) = link.take() {
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
+                Either::Left(SenderLinkState::Opening(_, link)) => {
+                    if let Some(tx) = link.take() {
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
             }
         }
         self.links.clear();
@@ -407,10 +428,19 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = SenderLink::new(Cell::new(SenderLinkInner::with(id, attach, cell)));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(
+            link.clone(),
+            attach.0.name.clone(),
+        )));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -429,7 +459,40 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (link, attach)
+    }
+
+    /// Check if remote sender link is still waiting for confirmation
+    fn is_opening_remote(&self, link: &Cell<SenderLinkInner>) -> bool {
+        matches!(
+            self.links.get(link.id),
+            Some(Either::Left(SenderLinkState::OpeningRemote(l, _))) if l.inner.ptr_eq(link)
+        )
+    }
+
+    /// Refuse remotely initiated link
+    fn post_refused_attach(&mut self, handle: Handle, name: ByteString, role: Role) {
+        let initial_delivery_count = match role {
+            Role::Sender => Some(0),
+            Role::Receiver => None,
+        };
+        let attach = Attach(Box::new(codec::AttachInner {
+            name,
+            handle,
+            role,
+            initial_delivery_count,
+            snd_settle_mode: SenderSettleMode::Mixed,
+            rcv_settle_mode: ReceiverSettleMode::First,
+            source: None,
+            target: None,
+            unsettled: None,
+            incomplete_unsettled: false,
+            max_message_size: None,
+            offered_capabilities: None,
+            desired_capabilities: None,
+            properties: None,
+        }));
+        self.post_frame(attach.into());
     }
 
     /// Open sender link
@@ -466,7 +529,16 @@ impl SessionInner {
         attach: &Attach,
         mut response: Attach,
         link: Cell<SenderLinkInner>,
-    ) -> SenderLink {
+    ) {
+        // link could be detached while control service was processing `Attach`
+        if !self.is_opening_remote(&link) {
+            log::trace!(
+                "{}: Remote sender link is gone: {:?}",
+                self.tag(),
+                attach.name()
+            );
+            return;
+        }
         log::trace!(
             "{}: Remote sender link attached: {:?}",
             self.tag(),
@@ -480,19 +552,13 @@ impl SessionInner {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
-        *self
-            .links
-            .get_mut(token)
-            .expect("new remote sender entry must exist") = Either::Left(
-            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-        );
-
         *response.handle_mut() = token as Handle;
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
+        self.links[token] = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+            link,
+        )));
         self.post_frame(response.into());
-        SenderLink::new(link)
     }
 
     /// Detach sender link
@@ -530,12 +596,16 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
-                    let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
+                SenderLinkState::OpeningRemote(_, name) => {
+                    let name = name.clone();
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed: true,
+                        error,
+                    }));
+                    *link = SenderLinkState::Closing(Some(tx));
+                    self.post_refused_attach(id, name, Role::Sender);
+                    self.post_frame(detach.into());
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -557,38 +627,16 @@ impl SessionInner {
     /// Detach unconfirmed sender link
     pub(crate) fn detach_unconfirmed_sender_link(
         &mut self,
-        attach: &Attach,
         link: &Cell<SenderLinkInner>,
         error: Option<Error>,
     ) {
-        let token = link.id;
-
-        let attach = Attach(Box::new(codec::AttachInner {
-            name: attach.0.name.clone(),
-            handle: token as Handle,
-            role: attach.0.role,
-            snd_settle_mode: SenderSettleMode::Unsettled,
-            rcv_settle_mode: ReceiverSettleMode::First,
-            source: None,
-            target: None,
-            unsettled: None,
-            incomplete_unsettled: false,
-            initial_delivery_count: None,
-            max_message_size: None,
-            offered_capabilities: None,
-            desired_capabilities: None,
-            properties: None,
-        }));
-        self.post_frame(attach.into());
-
-        let detach = Detach(Box::new(codec::DetachInner {
-            handle: token as Handle,
-            closed: true,
-            error,
-        }));
-        self.post_frame(detach.into());
-
-        self.remove_link(token);
+        // link could be detached while control service was processing `Attach`
+        if self.is_opening_remote(link) {
+            let (tx, _) = oneshot::channel();
+            let err = AmqpProtocolError::LinkDetached(error.clone());
+            self.detach_sender_link(link.id as Handle, true, error, tx);
+            link.get_mut().remote_detached(err);
+        }
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -620,10 +668,7 @@ impl SessionInner {
         let token = entry.key();
 
         let inner = Cell::new(ReceiverLinkInner::new(cell, token as u32, handle, attach));
-        entry.insert(Either::Right(ReceiverLinkState::Opening(Box::new(Some((
-            inner.clone(),
-            attach.source().cloned(),
-        ))))));
+        entry.insert(Either::Right(ReceiverLinkState::Opening(inner.clone())));
         self.remote_handles.insert(handle, token);
 
         let response = Attach(Box::new(codec::AttachInner {
@@ -675,21 +720,23 @@ impl SessionInner {
 
     pub(crate) fn confirm_receiver_link(
         &mut self,
-        token: Handle,
+        inner: &Cell<ReceiverLinkInner>,
         mut response: Attach,
         max_message_size: Option<u64>,
-    ) {
-        if let Some(Either::Right(link)) = self.links.get_mut(token as usize)
+    ) -> bool {
+        // link could be detached while service was processing `Attach`
+        if let Some(Either::Right(link)) = self.links.get_mut(inner.id() as usize)
             && let ReceiverLinkState::Opening(l) = link
-            && let Some((l, _)) = l.take()
+            && l.ptr_eq(inner)
         {
             *response.max_message_size_mut() = max_message_size;
-            *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l));
+            *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(inner.clone()));
             self.post_frame(response.into());
-            return;
+            true
+        } else {
+            log::trace!("{}: Receiver link is gone: {:?}", self.tag(), inner.name());
+            false
         }
-        // TODO: close session
-        log::error!("{}: Unexpected receiver link state", self.tag());
     }
 
     /// Detach receiver link
@@ -703,33 +750,16 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    if let Some((inner, source)) = inner.take() {
-                        let attach = Attach(Box::new(codec::AttachInner {
-                            source,
-                            max_message_size: None,
-                            name: inner.name().clone(),
-                            handle: id,
-                            role: Role::Receiver,
-                            snd_settle_mode: SenderSettleMode::Mixed,
-                            rcv_settle_mode: ReceiverSettleMode::First,
-                            target: None,
-                            unsettled: None,
-                            incomplete_unsettled: false,
-                            initial_delivery_count: Some(0),
-                            offered_capabilities: None,
-                            desired_capabilities: None,
-                            properties: None,
-                        }));
-                        self.post_frame(attach.into());
-                    }
+                    let inner = inner.clone();
+                    *link = ReceiverLinkState::Closing(Some(tx));
+
+                    self.post_refused_attach(id, inner.name().clone(), Role::Receiver);
                     let detach = Detach(Box::new(codec::DetachInner {
                         closed,
                         error,
                         handle: id,
                     }));
                     self.post_frame(detach.into());
-                    let _ = tx.send(Ok(()));
-                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -753,7 +783,19 @@ impl SessionInner {
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(item) => {
+                    if let Some((inner, tx)) = item.take() {
+                        inner.get_mut().detached();
+                        let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+                    }
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -993,11 +1035,22 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
-                        log::warn!(
+                    SenderLinkState::OpeningRemote(link, name) => {
+                        log::trace!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
+                        let (link, name) = (link.clone(), name.clone());
+                        let detach = Detach(Box::new(codec::DetachInner {
+                            handle: link.inner.id(),
+                            closed: true,
+                            error: None,
+                        }));
+                        let err = AmqpProtocolError::LinkDetached(frame.error().cloned());
+                        link.inner.get_mut().remote_detached(err);
+                        self.post_refused_attach(link.inner.id(), name, Role::Sender);
+                        self.post_frame(detach.into());
+                        action = Action::DetachSender(link, frame);
                         true
                     }
                     SenderLinkState::Closing(tx) => {
@@ -1012,7 +1065,23 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(link) => {
+                        let link = ReceiverLink::new(link.clone());
+                        let detach = Detach(Box::new(codec::DetachInner {
+                            handle: link.handle(),
+                            closed: true,
+                            error: None,
+                        }));
+                        link.remote_detached(frame.0.error.take());
+                        self.post_refused_attach(
+                            link.handle(),
+                            link.name().clone(),
+                            Role::Receiver,
+                        );
+                        self.post_frame(detach.into());
+                        action = Action::DetachReceiver(link, frame);
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
-- 
2.43.0


From b8e2219a811207da31d8bf846f8abaac263e9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 07/51] fix: end the local session, not the one with the same
 remote channel id

---
 src/session.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 15513b0..518bfca 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -108,14 +108,17 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
+
+                let links = inner.get_all_links();
+                inner.drop_state(&AmqpProtocolError::SessionEnded(None));
                 inner
                     .sink
                     .get_control_queue()
                     .enqueue_frame(ControlFrame::new_kind(
-                        crate::ControlFrameKind::LocalSessionEnded(inner.get_all_links()),
+                        crate::ControlFrameKind::LocalSessionEnded(links),
                     ));
             }
             let inner = self.inner.clone();
@@ -336,7 +339,15 @@ impl SessionInner {
             "{}: Connection is failed, dropping state: {err:?}",
             self.tag()
         );
+        self.drop_state(&err);
 
+        self.error = Some(err);
+        self.flags.insert(Flags::ENDED);
+        self.closed.notify_and_lock_readiness();
+    }
+
+    /// Fail everything that depends on the session
+    fn drop_state(&mut self, err: &AmqpProtocolError) {
         // drop pending transfers
         for tr in self.pending_transfers.drain(..) {
             let _ = tr.tx.send(Err(err.clone()));
@@ -392,10 +403,20 @@ impl SessionInner {
             }
         }
         self.links.clear();
+        self.remote_handles.clear();
+    }
 
-        self.error = Some(err);
-        self.flags.insert(Flags::ENDED);
-        self.closed.notify_and_lock_readiness();
+    /// Error for new operations, if session cannot be used anymore
+    fn check_error(&self) -> Option<AmqpProtocolError> {
+        if self.flags.intersects(Flags::ENDING | Flags::ENDED) {
+            Some(
+                self.error
+                    .clone()
+                    .unwrap_or(AmqpProtocolError::SessionEnded(None)),
+            )
+        } else {
+            None
+        }
     }
 
     /// End session.
@@ -501,6 +522,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Some(err) = self.check_error() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -697,6 +722,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Some(err) = self.check_error() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -1399,6 +1428,11 @@ impl SessionInner {
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        // nothing can be sent after `End`
+        if self.flags.intersects(Flags::ENDING | Flags::ENDED) {
+            log::trace!("{}: Session is ended, drop {frame:?}", self.tag());
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 71969fff5d3ee2a7f6ffa425eb7a6e86c91fa596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 08/51] fix: connection error completes pending session end

---
 src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 4c39573..88a74a5 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -219,8 +219,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
-- 
2.43.0


From eb8cc6d2c7604376604568caae0080c9a1e539a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 09/51] fix: send Close frame once and nothing after it

---
 src/connection.rs | 66 ++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 88a74a5..5d4f3c4 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -155,9 +155,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -166,14 +164,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -191,14 +182,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -234,7 +218,22 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        // `Close` frame must be sent only once
+        if self.state == ConnectionState::Normal {
+            self.post_frame(AmqpFrame::new(0, Frame::Close(Close { error })));
+            self.state = ConnectionState::Closing;
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        // nothing can be sent after `Close`
+        if self.state != ConnectionState::Normal {
+            log::trace!("{}: Connection is closed, drop {frame:?}", self.io.tag());
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
@@ -248,7 +247,7 @@ impl ConnectionInner {
         remote_channel_id: u16,
         begin: Begin,
         cell: &Cell<ConnectionInner>,
-    ) -> Result<(), AmqpProtocolError> {
+    ) {
         log::trace!(
             "{}: Remote session opened: {:?}",
             self.io.tag(),
@@ -280,12 +279,7 @@ impl ConnectionInner {
             properties: None,
         }));
 
-        self.io
-            .encode(
-                AmqpFrame::new(local_token as u16, begin.into()),
-                &self.codec,
-            )
-            .map_err(AmqpProtocolError::Codec)
+        self.post_frame(AmqpFrame::new(local_token as u16, begin.into()));
     }
 
     pub(crate) fn complete_session_creation(
@@ -357,11 +351,7 @@ impl ConnectionInner {
         match frame {
             Frame::Empty => Ok(Action::None),
             Frame::Close(close) => {
-                if self.state == ConnectionState::Closing {
-                    log::trace!("{}: Connection closed: {:?}", self.io.tag(), close);
-                    self.set_error(AmqpProtocolError::Disconnected);
-                    Ok(Action::None)
-                } else {
+                if self.state == ConnectionState::Normal {
                     log::trace!("{}: Connection closed remotely: {:?}", self.io.tag(), close);
                     let err = AmqpProtocolError::Closed(close.error);
                     self.set_error(err.clone());
@@ -369,8 +359,20 @@ impl ConnectionInner {
                     self.post_frame(AmqpFrame::new(0, close.into()));
                     self.state = ConnectionState::RemoteClose;
                     Ok(Action::RemoteClose(err))
+                } else {
+                    log::trace!("{}: Connection closed: {:?}", self.io.tag(), close);
+                    self.set_error(AmqpProtocolError::Disconnected);
+                    Ok(Action::None)
                 }
             }
+            frame if self.state != ConnectionState::Normal => {
+                log::trace!(
+                    "{}: Connection is closed, ignore {:?}",
+                    self.io.tag(),
+                    frame
+                );
+                Ok(Action::None)
+            }
             Frame::Begin(begin) => {
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
@@ -378,7 +380,7 @@ impl ConnectionInner {
                 if let Some(local_channel_id) = begin.remote_channel() {
                     self.complete_session_creation(local_channel_id, channel_id, begin);
                 } else {
-                    self.register_remote_session(channel_id, begin, inner)?;
+                    self.register_remote_session(channel_id, begin, inner);
                 }
                 Ok(Action::None)
             }
-- 
2.43.0


From 0451cc67eb2f5870657e7c6d44a09602e41ca61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 10/51] fix: open sessions only on negotiated channels

---
 src/connection.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 5d4f3c4..5e1837a 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -68,7 +68,7 @@ impl Connection {
             control_queue: Rc::default(),
             error: None,
             on_close: Condition::new(),
-            channel_max: local_config.channel_max,
+            channel_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -247,7 +247,7 @@ impl ConnectionInner {
         remote_channel_id: u16,
         begin: Begin,
         cell: &Cell<ConnectionInner>,
-    ) {
+    ) -> Result<(), AmqpProtocolError> {
         log::trace!(
             "{}: Remote session opened: {:?}",
             self.io.tag(),
@@ -256,6 +256,10 @@ impl ConnectionInner {
 
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.channel_max as usize {
+            log::trace!("{}: Too many channels: {local_token:?}", self.io.tag());
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -280,6 +284,7 @@ impl ConnectionInner {
         }));
 
         self.post_frame(AmqpFrame::new(local_token as u16, begin.into()));
+        Ok(())
     }
 
     pub(crate) fn complete_session_creation(
@@ -380,7 +385,7 @@ impl ConnectionInner {
                 if let Some(local_channel_id) = begin.remote_channel() {
                     self.complete_session_creation(local_channel_id, channel_id, begin);
                 } else {
-                    self.register_remote_session(channel_id, begin, inner);
+                    self.register_remote_session(channel_id, begin, inner)?;
                 }
                 Ok(Action::None)
             }
@@ -586,7 +591,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 694a34c25bb69f81d1004551773c64320632e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 11/51] fix: Begin frame must not take over channel that is in
 use

---
 src/connection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index 5e1837a..c7a8c02 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -378,6 +378,10 @@ impl ConnectionInner {
                 );
                 Ok(Action::None)
             }
+            Frame::Begin(begin) if self.sessions_map.contains_key(&channel_id) => {
+                log::trace!("{}: Channel is in use: {channel_id:?}", self.io.tag());
+                Err(AmqpProtocolError::Unexpected(Frame::Begin(begin)))
+            }
             Frame::Begin(begin) => {
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
-- 
2.43.0


From c07b9770b274a6a364fee8a7cdd9268564b55e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 12/51] fix: track remote settlement of a delivery and complete
 every waiter

---
 src/delivery.rs | 174 +++++++++++++++++++++++++++---------------------
 1 file changed, 97 insertions(+), 77 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..b17a237 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    tx: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -87,17 +87,41 @@ impl Delivery {
     }
 
     pub fn is_remote_settled(&self) -> bool {
+        if !self.is_set(Flags::REMOTE_SETTLED)
+            && let Some(inner) = self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+            && inner.settled
+        {
+            self.set_flag(Flags::REMOTE_SETTLED);
+        }
         self.is_set(Flags::REMOTE_SETTLED)
     }
 
+    /// Link or session is gone
+    fn is_detached(&self) -> bool {
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_deliveries(self.is_set(Flags::SENDER))
+            .get(&self.id)
+            .is_none_or(|inner| inner.error.is_some())
+    }
+
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
         if !self.is_set(Flags::LOCAL_SETTLED) {
             self.set_flag(Flags::LOCAL_SETTLED);
+            if self.is_detached() {
+                return;
+            }
 
             let disp = Disposition(Box::new(DispositionInner {
                 role: if self.is_set(Flags::SENDER) {
@@ -117,7 +141,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) || self.is_detached() {
             return;
         }
 
@@ -147,58 +171,44 @@ impl Delivery {
     }
 
     pub async fn wait(&self) -> Result<Option<DeliveryState>, AmqpProtocolError> {
-        if self.flags.get().contains(Flags::LOCAL_SETTLED) {
-            log::debug!("Delivery {:?} is settled locally", self.id);
-            return Ok(None);
-        }
-
-        let rx = if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
+        loop {
+            if self.is_set(Flags::LOCAL_SETTLED) {
+                log::debug!("Delivery {:?} is settled locally", self.id);
+                return Ok(None);
             }
 
-            let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
-            rx
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
-        };
-        if rx.await.is_err() {
-            return Err(AmqpProtocolError::ConnectionDropped);
-        }
-
-        if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if inner.settled {
-                self.set_flag(Flags::REMOTE_SETTLED);
-            }
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
+            let rx = if let Some(inner) = self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get_mut(&self.id)
+            {
+                if inner.settled {
+                    self.set_flag(Flags::REMOTE_SETTLED);
+                }
+                if let Some(st) = Self::check_inner(inner) {
+                    return st;
+                }
+
+                let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
+                inner.tx.push(tx);
+                rx
+            } else {
+                // session ended
+                return Err(AmqpProtocolError::LinkDetached(None));
+            };
+            if rx.await.is_err() {
+                return Err(AmqpProtocolError::ConnectionDropped);
             }
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
         }
-        Ok(None)
     }
 
     fn check_inner(
         inner: &mut DeliveryInner,
     ) -> Option<Result<Option<DeliveryState>, AmqpProtocolError>> {
         if let Some(ref st) = inner.state {
-            if matches!(st, DeliveryState::Modified(..)) {
+            if matches!(st, DeliveryState::Modified(..)) && !inner.settled {
                 // non terminal state
                 Some(Ok(Some(inner.state.take().unwrap())))
             } else {
@@ -206,7 +216,12 @@ impl Delivery {
                 Some(Ok(Some(st.clone())))
             }
         } else {
-            inner.error.as_ref().map(|err| Err(err.clone()))
+            match inner.error {
+                Some(ref err) => Some(Err(err.clone())),
+                // settled without state
+                None if inner.settled => Some(Ok(None)),
+                None => None,
+            }
         }
     }
 }
@@ -216,30 +231,35 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
-
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
-                let err = Error::build()
-                    .condition(ErrorCondition::Custom(Symbol(Str::from_static(
-                        "Internal error",
-                    ))))
-                    .finish();
-
-                let disp = Disposition(Box::new(DispositionInner {
-                    role: if self.is_set(Flags::SENDER) {
-                        Role::Sender
-                    } else {
-                        Role::Receiver
-                    },
-                    first: self.id,
-                    last: None,
-                    settled: true,
-                    state: Some(DeliveryState::Rejected(Rejected { error: Some(err) })),
-                    batchable: false,
-                }));
-                inner.post_frame(disp.into());
+        if let Some(delivery) = deliveries.remove(&self.id) {
+            // link is gone or delivery is settled
+            if delivery.error.is_some()
+                || delivery.settled
+                || self.is_set(Flags::REMOTE_SETTLED)
+                || self.is_set(Flags::LOCAL_SETTLED)
+            {
+                return;
             }
+
+            let err = Error::build()
+                .condition(ErrorCondition::Custom(Symbol(Str::from_static(
+                    "Internal error",
+                ))))
+                .finish();
+
+            let disp = Disposition(Box::new(DispositionInner {
+                role: if self.is_set(Flags::SENDER) {
+                    Role::Sender
+                } else {
+                    Role::Receiver
+                },
+                first: self.id,
+                last: None,
+                settled: true,
+                state: Some(DeliveryState::Rejected(Rejected { error: Some(err) })),
+                batchable: false,
+            }));
+            inner.post_frame(disp.into());
         }
     }
 }
@@ -248,7 +268,7 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
+            tx: Vec::new(),
             state: None,
             error: None,
             settled: false,
@@ -261,9 +281,7 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 
     pub(crate) fn handle_disposition(&mut self, disp: &Disposition) {
@@ -273,7 +291,11 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
+        self.notify();
+    }
+
+    fn notify(&mut self) {
+        for tx in self.tx.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -281,9 +303,7 @@ impl DeliveryInner {
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
-- 
2.43.0


From f28003c6e2c79b52222ef281d50b1ce109613afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 13/51] fix: settle range of deliveries without enumerating it

---
 src/session.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 518bfca..23d5eee 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1207,14 +1207,24 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
-                    delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
+            // delivery numbers could wrap
+            let size = to.wrapping_sub(from);
+            if size > u32::MAX >> 1 {
+                log::trace!("{}: Invalid range, disp: {disp:?}", self.sink.tag());
+                return;
+            }
+            if (size as usize) < deliveries.len() {
+                for idx in 0..=size {
+                    if let Some(delivery) = deliveries.get_mut(&from.wrapping_add(idx)) {
+                        delivery.handle_disposition(disp);
+                    }
+                }
+            } else {
+                // size of the range is defined by the peer, do not enumerate it
+                for (no, delivery) in deliveries.iter_mut() {
+                    if no.wrapping_sub(from) <= size {
+                        delivery.handle_disposition(disp);
+                    }
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From 42631d4a41320e47469f7f04e5dcb2b008db987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 14/51] fix: send deliveries in order and within link credit,
 session window and frame size

---
 src/delivery.rs |  21 ++-
 src/session.rs  | 343 +++++++++++++++++++++++++++---------------------
 src/sndlink.rs  | 177 ++++++++++++++++++-------
 3 files changed, 331 insertions(+), 210 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b17a237..40f61c2 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -359,13 +359,11 @@ impl TransferBuilder {
                 return Err(AmqpProtocolError::BodyTooLarge);
             }
 
-            let (id, tag) = self
-                .sender
-                .get_mut()
-                .send(self.data, self.tag, self.settled, self.format)
-                .await?;
+            let (id, tag, waiter) =
+                SenderLinkInner::send(&self.sender, self.data, self.tag, self.settled, self.format)
+                    .await?;
 
-            Ok(Delivery {
+            let delivery = Delivery {
                 id,
                 tag,
                 session: self.sender.get_ref().session.clone(),
@@ -374,7 +372,16 @@ impl TransferBuilder {
                 } else {
                     Flags::SENDER
                 }),
-            })
+            };
+
+            // delivery is larger than session window
+            if let Some(waiter) = waiter {
+                waiter
+                    .await
+                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                    .and_then(|v| v)?;
+            }
+            Ok(delivery)
         }
     }
 }
diff --git a/src/session.rs b/src/session.rs
index 23d5eee..1517cfa 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -49,7 +49,10 @@ pub(crate) struct SessionInner {
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
 
-    pending_transfers: VecDeque<PendingTransfer>,
+    next_delivery_id: DeliveryNumber,
+    partial_transfer: Option<PartialTransfer>,
+    // links that wait for remote incoming window
+    window_waiters: VecDeque<usize>,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
 
@@ -274,10 +277,17 @@ bitflags::bitflags! {
     }
 }
 
+/// Resolves when all frames of the delivery are sent
+pub(crate) type TransferWaiter = pool::Receiver<Result<(), AmqpProtocolError>>;
+
+/// Rest of the delivery that does not fit into remote incoming window
 #[derive(Debug)]
-struct PendingTransfer {
+struct PartialTransfer {
     tx: pool::Sender<Result<(), AmqpProtocolError>>,
-    link_handle: Handle,
+    handle: Handle,
+    format: Option<MessageFormat>,
+    max_size: usize,
+    body: Bytes,
 }
 
 impl SessionInner {
@@ -301,7 +311,9 @@ impl SessionInner {
             opening_senders: HashMap::default(),
             opening_receivers: HashMap::default(),
             remote_handles: HashMap::default(),
-            pending_transfers: VecDeque::new(),
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
+            partial_transfer: None,
+            window_waiters: VecDeque::new(),
             error: None,
             pool_notify: pool::new(),
             pool_credit: pool::new(),
@@ -349,7 +361,8 @@ impl SessionInner {
     /// Fail everything that depends on the session
     fn drop_state(&mut self, err: &AmqpProtocolError) {
         // drop pending transfers
-        for tr in self.pending_transfers.drain(..) {
+        self.window_waiters.clear();
+        if let Some(tr) = self.partial_transfer.take() {
             let _ = tr.tx.send(Err(err.clone()));
         }
 
@@ -581,9 +594,13 @@ impl SessionInner {
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.links[token] = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
-            link,
+            link.clone(),
         )));
         self.post_frame(response.into());
+
+        // link could have credit already
+        link.get_mut().confirmed = true;
+        link.get_mut().wake_pending();
     }
 
     /// Detach sender link
@@ -614,6 +631,7 @@ impl SessionInner {
                     }));
 
                     *link = SenderLinkState::Closing(Some(tx));
+                    self.drop_sender_transfers(id, &AmqpProtocolError::LinkDetached(None));
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -798,6 +816,7 @@ impl SessionInner {
                         error,
                     }));
                     *link = ReceiverLinkState::Closing(Some(tx));
+                    self.drop_receiver_transfers(id, &AmqpProtocolError::LinkDetached(None));
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -864,8 +883,14 @@ impl SessionInner {
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(link, _) => {
+                                return Ok(Action::Flow(link.clone(), flow));
+                            }
+                            _ => (),
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
@@ -1037,31 +1062,16 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // drop pending transfers
-                        let mut idx = 0;
+                        // drop pending and unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
-
-                        // drop unsettled transfers
-                        let handle = link.inner.get_ref().id() as Handle;
-                        for delivery in self.unsettled_snd_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
+                        let link = SenderLink::new(link.inner.clone());
+                        self.drop_sender_transfers(handle, &err);
 
                         // detach snd link
                         link.inner.get_mut().remote_detached(err);
                         self.sink
                             .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
-                        action = Action::DetachSender(link.clone(), frame);
+                        action = Action::DetachSender(link, frame);
                         true
                     }
                     SenderLinkState::OpeningRemote(link, name) => {
@@ -1129,13 +1139,11 @@ impl SessionInner {
                         let error = frame.0.error.take();
 
                         // drop unsettled transfers
-                        let err = AmqpProtocolError::LinkDetached(error.clone());
-                        let handle = link.inner.get_ref().id();
-                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
+                        let link = ReceiverLink::new(link.inner.clone());
+                        self.drop_receiver_transfers(
+                            link.handle(),
+                            &AmqpProtocolError::LinkDetached(error.clone()),
+                        );
 
                         // detach from remote endpoint
                         let detach = Detach(Box::new(codec::DetachInner {
@@ -1148,7 +1156,7 @@ impl SessionInner {
 
                         // detach rcv link
                         link.remote_detached(error);
-                        action = Action::DetachReceiver(link.clone(), frame);
+                        action = Action::DetachReceiver(link, frame);
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
@@ -1174,6 +1182,27 @@ impl SessionInner {
         action
     }
 
+    /// Drop transfers of the detached sender link
+    fn drop_sender_transfers(&mut self, handle: Handle, err: &AmqpProtocolError) {
+        if let Some(tr) = self.partial_transfer.take_if(|tr| tr.handle == handle) {
+            let _ = tr.tx.send(Err(err.clone()));
+        }
+        for delivery in self.unsettled_snd_deliveries.values_mut() {
+            if delivery.handle() == handle {
+                delivery.set_error(err.clone());
+            }
+        }
+    }
+
+    /// Drop transfers of the detached receiver link
+    fn drop_receiver_transfers(&mut self, handle: Handle, err: &AmqpProtocolError) {
+        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+            if delivery.handle() == handle {
+                delivery.set_error(err.clone());
+            }
+        }
+    }
+
     /// Remove link and everything that refers to it
     fn remove_link(&mut self, idx: usize) {
         if self.links.contains(idx) {
@@ -1249,11 +1278,17 @@ impl SessionInner {
             self.tag(),
             flow.link_credit(),
             self.remote_incoming_window,
-            self.pending_transfers.len(),
+            self.window_waiters.len(),
         );
 
-        while let Some(tr) = self.pending_transfers.pop_front() {
-            let _ = tr.tx.send(Ok(()));
+        self.send_partial_transfer();
+        if self.has_window() {
+            for idx in mem::take(&mut self.window_waiters) {
+                if let Some(Either::Left(SenderLinkState::Established(link))) = self.links.get(idx)
+                {
+                    link.inner.get_mut().wake_pending();
+                }
+            }
         }
 
         if flow.echo() {
@@ -1300,141 +1335,145 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
-    #[allow(clippy::too_many_lines)]
-    pub(crate) async fn send_transfer(
-        &mut self,
-        link_handle: Handle,
-        tag: Bytes,
-        body: TransferBody,
-        settled: bool,
-        format: Option<MessageFormat>,
-    ) -> Result<DeliveryNumber, AmqpProtocolError> {
-        loop {
-            if self.remote_incoming_window == 0 {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
-            }
-            break;
+    /// Check if transfer can be sent
+    pub(crate) fn has_window(&self) -> bool {
+        self.remote_incoming_window > 0
+    }
+
+    /// Wake up sender link when transfer can be sent
+    pub(crate) fn wait_window(&mut self, link: usize) {
+        if !self.window_waiters.contains(&link) {
+            self.window_waiters.push_back(link);
         }
+    }
 
+    /// Send transfer frame, every frame uses session window
+    fn post_transfer(&mut self, transfer: Transfer) {
         self.remote_incoming_window -= 1;
-
-        let delivery_id = self.next_outgoing_id;
         self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
 
-        let tr_settled = if settled {
-            Some(DeliveryState::Accepted(Accepted {}))
-        } else {
-            None
-        };
-        let message_format = if format.is_none() {
-            body.message_format()
-        } else {
-            format
-        };
-
-        let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
-            u32::MAX
-        } else {
-            max_frame_size
-        } as usize;
-
-        // body is larger than allowed frame size, send body as a set of transfers
-        if body.len() > max_frame_size {
-            let mut body = match body {
-                TransferBody::Data(data) => data,
-                TransferBody::Message(msg) => {
-                    let mut buf = self
-                        .sink
-                        .config()
-                        .write_buf()
-                        .buf_with_capacity(msg.encoded_size());
-                    msg.encode(&mut buf);
-                    buf.freeze()
-                }
-            };
+        log::trace!(
+            "{}: Sending transfer over handle {}. window: {} delivery_id: {:?} delivery_tag: {:?}, more: {:?}, batchable: {:?}, settled: {:?}",
+            self.sink.tag(),
+            transfer.handle(),
+            self.remote_incoming_window,
+            transfer.delivery_id(),
+            transfer.delivery_tag(),
+            transfer.more(),
+            transfer.batchable(),
+            transfer.settled(),
+        );
+        self.post_frame(Frame::Transfer(transfer));
+    }
 
-            let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
+    /// Send the rest of the delivery
+    fn send_partial_transfer(&mut self) {
+        while self.has_window()
+            && let Some(mut tr) = self.partial_transfer.take()
+        {
+            let chunk = tr.body.split_to(cmp::min(tr.max_size, tr.body.len()));
 
             let mut transfer = Transfer(Box::default());
-            transfer.0.handle = link_handle;
+            transfer.0.handle = tr.handle;
             transfer.0.body = Some(TransferBody::Data(chunk));
-            transfer.0.more = true;
-            transfer.0.state = tr_settled;
+            transfer.0.more = !tr.body.is_empty();
             transfer.0.batchable = true;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag.clone());
-            transfer.0.message_format = message_format;
+            transfer.0.message_format = tr.format;
+            self.post_transfer(transfer);
 
-            if settled {
-                transfer.0.settled = Some(true);
+            if tr.body.is_empty() {
+                // last chunk
+                let _ = tr.tx.send(Ok(()));
             } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
+                self.partial_transfer = Some(tr);
             }
+        }
+    }
 
-            log::trace!(
-                "{}: Sending transfer over handle {link_handle}. window: {} delivery_id: {:?} delivery_tag: {:?}, more: {:?}, batchable: {:?}, settled: {:?}",
-                self.sink.tag(),
-                self.remote_incoming_window,
-                transfer.delivery_id(),
-                transfer.delivery_tag(),
-                transfer.more(),
-                transfer.batchable(),
-                transfer.settled(),
-            );
-            self.post_frame(Frame::Transfer(transfer));
-
-            loop {
-                // last chunk
-                if body.is_empty() {
-                    log::trace!("{}: Last tranfer for {tag:?} is sent", self.tag());
-                    break;
-                }
-
-                let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
+    /// Send delivery, caller must check session window
+    pub(crate) fn send_transfer(
+        &mut self,
+        link_handle: Handle,
+        tag: Bytes,
+        body: TransferBody,
+        settled: bool,
+        format: Option<MessageFormat>,
+    ) -> (DeliveryNumber, Option<TransferWaiter>) {
+        let delivery_id = self.next_delivery_id;
+        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
+
+        let mut transfer = Transfer(Box::default());
+        transfer.0.handle = link_handle;
+        transfer.0.delivery_id = Some(delivery_id);
+        transfer.0.delivery_tag = Some(tag);
+        transfer.0.message_format = if format.is_none() {
+            body.message_format()
+        } else {
+            format
+        };
 
-                log::trace!("{}: Sending chunk tranfer for {tag:?}", self.tag());
-                let mut transfer = Transfer(Box::default());
-                transfer.0.handle = link_handle;
-                transfer.0.body = Some(TransferBody::Data(chunk));
-                transfer.0.more = !body.is_empty();
-                transfer.0.batchable = true;
-                transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
-            }
+        if settled {
+            transfer.0.state = Some(DeliveryState::Accepted(Accepted {}));
+            transfer.0.settled = Some(true);
         } else {
-            let mut transfer = Transfer(Box::default());
-            transfer.0.handle = link_handle;
+            self.unsettled_snd_deliveries
+                .insert(delivery_id, DeliveryInner::new(link_handle));
+        }
+
+        let max_size = self.max_body_size(&transfer);
+        if body.len() <= max_size {
             transfer.0.body = Some(body);
-            transfer.0.state = tr_settled;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag);
-            transfer.0.message_format = message_format;
+            self.post_transfer(transfer);
+            return (delivery_id, None);
+        }
 
-            if settled {
-                transfer.0.settled = Some(true);
-            } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
+        // body is larger than allowed frame size, send body as a set of transfers
+        let mut body = match body {
+            TransferBody::Data(data) => data,
+            TransferBody::Message(msg) => {
+                let mut buf = self
+                    .sink
+                    .config()
+                    .write_buf()
+                    .buf_with_capacity(msg.encoded_size());
+                msg.encode(&mut buf);
+                buf.freeze()
             }
-            self.post_frame(Frame::Transfer(transfer));
+        };
+        let format = transfer.0.message_format;
+        transfer.0.body = Some(TransferBody::Data(body.split_to(max_size)));
+        transfer.0.more = true;
+        transfer.0.batchable = true;
+        self.post_transfer(transfer);
+
+        let (tx, rx) = self.pool_credit.channel();
+        self.partial_transfer = Some(PartialTransfer {
+            tx,
+            handle: link_handle,
+            format,
+            max_size,
+            body,
+        });
+        self.send_partial_transfer();
+
+        (delivery_id, self.partial_transfer.is_some().then_some(rx))
+    }
+
+    /// Size of the body that fits into one frame
+    fn max_body_size(&self, transfer: &Transfer) -> usize {
+        let max_frame_size = self.max_frame_size() as usize;
+        if max_frame_size == 0 {
+            return u32::MAX as usize;
         }
 
-        Ok(delivery_id)
+        // leave room for other fields of the transfer
+        let header = AmqpFrame::new(self.id(), transfer.clone().into()).encoded_size() + 8;
+        let size = if max_frame_size > 2048 {
+            max_frame_size - 2048
+        } else {
+            max_frame_size
+        };
+        cmp::max(cmp::min(size, max_frame_size.saturating_sub(header)), 1)
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 42a9608..cd8edad 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -9,7 +9,7 @@ use ntex_util::channel::{condition, oneshot, pool};
 use ntex_util::future::{Either, Ready};
 
 use crate::delivery::TransferBuilder;
-use crate::session::{Session, SessionInner};
+use crate::session::{Session, SessionInner, TransferWaiter};
 use crate::{Handle, cell::Cell, error::AmqpProtocolError};
 
 #[derive(Clone)]
@@ -26,7 +26,9 @@ pub(crate) struct SenderLinkInner {
     initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
-    pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
+    pending_transfers: VecDeque<PendingTransfer>,
+    pending_id: usize,
+    pub(crate) confirmed: bool,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
@@ -34,6 +36,26 @@ pub(crate) struct SenderLinkInner {
     on_credit: condition::Condition,
 }
 
+#[derive(Debug)]
+struct PendingTransfer {
+    id: usize,
+    tx: Option<pool::Sender<Result<(), AmqpProtocolError>>>,
+}
+
+/// Place in the queue of the link, `send` operation keeps it until transfer is sent
+struct PendingTurn<'a> {
+    id: usize,
+    link: &'a Cell<SenderLinkInner>,
+}
+
+impl Drop for PendingTurn<'_> {
+    fn drop(&mut self) {
+        let link = self.link.get_mut();
+        link.pending_transfers.retain(|item| item.id != self.id);
+        link.wake_pending();
+    }
+}
+
 impl std::fmt::Debug for SenderLink {
     fn fmt(&self, fmt: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         fmt.debug_tuple("SenderLink")
@@ -195,6 +217,8 @@ impl SenderLinkInner {
             remote_handle: handle,
             link_credit: 0,
             pending_transfers: VecDeque::new(),
+            pending_id: 0,
+            confirmed: true,
             error: None,
             closed: false,
             delivery_tag: 0,
@@ -218,14 +242,16 @@ impl SenderLinkInner {
             .max_message_size()
             .map(|size| u32::try_from(size).unwrap_or(u32::MAX));
 
-        SenderLinkInner::new(
+        let mut inner = SenderLinkInner::new(
             id,
             name,
             frame.handle(),
             delivery_count,
             session,
             max_message_size,
-        )
+        );
+        inner.confirmed = false;
+        inner
     }
 
     pub(crate) fn id(&self) -> u32 {
@@ -244,10 +270,7 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
+        self.drop_pending(&err);
 
         self.closed = true;
         self.error = Some(err);
@@ -255,6 +278,28 @@ impl SenderLinkInner {
         self.on_credit.notify_and_lock_readiness();
     }
 
+    /// Drop pending transfers
+    fn drop_pending(&mut self, err: &AmqpProtocolError) {
+        for item in self.pending_transfers.drain(..) {
+            if let Some(tx) = item.tx {
+                let _ = tx.send(Err(err.clone()));
+            }
+        }
+    }
+
+    /// Wake up first pending transfer
+    pub(crate) fn wake_pending(&mut self) {
+        if self.link_credit > 0
+            && self.confirmed
+            && let Some(tx) = self
+                .pending_transfers
+                .front_mut()
+                .and_then(|item| item.tx.take())
+        {
+            let _ = tx.send(Ok(()));
+        }
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
@@ -263,6 +308,7 @@ impl SenderLinkInner {
             Either::Left(Ready::Ok(()))
         } else {
             self.closed = true;
+            self.drop_pending(&AmqpProtocolError::LinkDetached(None));
             self.on_close.notify_and_lock_readiness();
             self.on_credit.notify_and_lock_readiness();
 
@@ -304,10 +350,8 @@ impl SenderLinkInner {
 
             self.link_credit = new_credit;
 
-            // credit became available => drain pending_transfers
-            while let Some(tx) = self.pending_transfers.pop_front() {
-                let _ = tx.send(Ok(()));
-            }
+            // credit became available
+            self.wake_pending();
 
             // notify available credit waiters
             if self.link_credit > 0 {
@@ -316,52 +360,82 @@ impl SenderLinkInner {
         }
     }
 
-    pub(crate) async fn send<T: Into<TransferBody>>(
-        &mut self,
-        body: T,
+    /// Start delivery process, waits for available link credit and session window.
+    pub(crate) async fn send(
+        link: &Cell<SenderLinkInner>,
+        body: TransferBody,
         tag: Option<Bytes>,
         settled: bool,
         format: Option<MessageFormat>,
-    ) -> Result<(DeliveryNumber, Bytes), AmqpProtocolError> {
-        if let Some(ref err) = self.error {
-            Err(err.clone())
-        } else {
-            let body = body.into();
-            let tag = self.get_tag(tag);
-
-            loop {
-                if self.link_credit == 0 || !self.pending_transfers.is_empty() {
-                    log::trace!(
-                        "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
-                        self.session.tag(),
-                        self.link_credit,
-                        self.name,
-                        self.id,
-                        self.remote_handle,
-                        self.pending_transfers.len()
-                    );
-                    let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
-                    self.pending_transfers.push_back(tx);
-                    rx.await
-                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                        .and_then(|v| v)?;
-                    continue;
-                }
-                break;
+    ) -> Result<(DeliveryNumber, Bytes, Option<TransferWaiter>), AmqpProtocolError> {
+        let mut turn: Option<PendingTurn<'_>> = None;
+
+        loop {
+            let inner = link.get_mut();
+            if let Some(ref err) = inner.error {
+                return Err(err.clone());
+            } else if inner.closed {
+                return Err(AmqpProtocolError::LinkDetached(None));
             }
 
-            // reduce link credit
-            self.link_credit -= 1;
-            self.delivery_count = self.delivery_count.wrapping_add(1);
-            let id = self
-                .session
-                .inner
-                .get_mut()
-                .send_transfer(self.id as u32, tag.clone(), body, settled, format)
-                .await?;
+            // transfers are sent in order
+            let is_first = inner
+                .pending_transfers
+                .front()
+                .is_none_or(|item| turn.as_ref().is_some_and(|turn| turn.id == item.id));
 
-            Ok((id, tag))
+            if is_first && inner.confirmed && inner.link_credit > 0 {
+                let session = inner.session.inner.get_mut();
+                if session.has_window() {
+                    break;
+                }
+                session.wait_window(inner.id);
+            }
+
+            log::trace!(
+                "{}: Cannot send transfer, push to pending queue hnd:{}({} -> {}), credit: {:?}, queue size: {}",
+                inner.session.tag(),
+                inner.name,
+                inner.id,
+                inner.remote_handle,
+                inner.link_credit,
+                inner.pending_transfers.len()
+            );
+            let (tx, rx) = inner.session.inner.get_ref().pool_credit.channel();
+            if let Some(ref turn) = turn {
+                if let Some(item) = inner
+                    .pending_transfers
+                    .iter_mut()
+                    .find(|item| item.id == turn.id)
+                {
+                    item.tx = Some(tx);
+                }
+            } else {
+                let id = inner.pending_id;
+                inner.pending_id = id.wrapping_add(1);
+                inner
+                    .pending_transfers
+                    .push_back(PendingTransfer { id, tx: Some(tx) });
+                turn = Some(PendingTurn { id, link });
+            }
+            rx.await
+                .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                .and_then(|v| v)?;
         }
+
+        // reduce link credit
+        let inner = link.get_mut();
+        let tag = inner.get_tag(tag);
+        inner.link_credit -= 1;
+        inner.delivery_count = inner.delivery_count.wrapping_add(1);
+        let (id, waiter) = inner.session.inner.get_mut().send_transfer(
+            inner.id as Handle,
+            tag.clone(),
+            body,
+            settled,
+            format,
+        );
+        Ok((id, tag, waiter))
     }
 
     fn get_tag(&mut self, tag: Option<Bytes>) -> Bytes {
@@ -403,6 +477,7 @@ impl Drop for EstablishedSenderLink {
         let inner = self.0.inner.get_mut();
         if !inner.closed {
             inner.closed = true;
+            inner.drop_pending(&AmqpProtocolError::LinkDetached(None));
             inner.on_close.notify_and_lock_readiness();
             inner.on_credit.notify_and_lock_readiness();
         }
-- 
2.43.0


From ec21e0e89d4190576619455602d1d1854574ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 15/51] fix: keep next-incoming-id of the session up to date

---
 src/session.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 1517cfa..2f6861a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -902,6 +902,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -935,8 +937,6 @@ impl SessionInner {
                                     )))
                                 }
                                 ReceiverLinkState::Established(link) => {
-                                    // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -1293,11 +1293,7 @@ impl SessionInner {
 
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
+                next_incoming_id: Some(self.next_incoming_id),
                 incoming_window: u32::MAX,
                 next_outgoing_id: self.next_outgoing_id,
                 outgoing_window: self.remote_incoming_window,
-- 
2.43.0


From e3ce0b3d471efb1e9ae09b8cad28f6afa16b95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 16/51] fix: session window and link credit follow the latest
 Flow frame

---
 src/control.rs    |  4 ++++
 src/dispatcher.rs | 11 +++++++----
 src/session.rs    | 11 ++++-------
 src/sndlink.rs    | 19 +++++++++++++++++--
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/control.rs b/src/control.rs
index f397489..518e437 100644
--- a/src/control.rs
+++ b/src/control.rs
@@ -15,6 +15,8 @@ pub struct ControlFrame(pub(super) Cell<FrameInner>);
 pub(super) struct FrameInner {
     pub(super) kind: ControlFrameKind,
     pub(super) session: Option<Cell<SessionInner>>,
+    // position of the flow frame in link's sequence of flow frames
+    pub(super) seq: u64,
 }
 
 impl fmt::Debug for ControlFrame {
@@ -46,6 +48,7 @@ impl ControlFrame {
         ControlFrame(Cell::new(FrameInner {
             session: Some(session),
             kind,
+            seq: 0,
         }))
     }
 
@@ -53,6 +56,7 @@ impl ControlFrame {
         ControlFrame(Cell::new(FrameInner {
             session: None,
             kind,
+            seq: 0,
         }))
     }
 
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 68e21a9..1f0818b 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -200,10 +200,13 @@ where
                     }
                     types::Action::Flow(link, frm) => {
                         // apply flow to specific link
-                        self.call_control_service(ControlFrame::new(
+                        let seq = link.inner.get_mut().next_flow_seq();
+                        let frame = ControlFrame::new(
                             link.session().inner.clone(),
-                            ControlFrameKind::Flow(frm, link.clone()),
-                        ));
+                            ControlFrameKind::Flow(frm, link),
+                        );
+                        frame.0.get_mut().seq = seq;
+                        self.call_control_service(frame);
                     }
                     types::Action::AttachSender(link, frame, pfrm) => {
                         self.call_control_service(ControlFrame::new(
@@ -354,7 +357,7 @@ where
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    frame.session_cell().get_mut().handle_flow(frm, Some(link));
+                    link.inner.get_mut().apply_flow(frm, frame.0.seq);
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
diff --git a/src/session.rs b/src/session.rs
index 2f6861a..ad07e79 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -877,6 +877,8 @@ impl SessionInner {
         if self.error.is_none() {
             match frame {
                 Frame::Flow(flow) => {
+                    self.handle_flow(&flow);
+
                     // apply link flow
                     if let Some(Either::Left(link)) = flow
                         .handle()
@@ -894,7 +896,6 @@ impl SessionInner {
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
-                    self.handle_flow(&flow, None);
                     Ok(Action::None)
                 }
                 Frame::Disposition(disp) => {
@@ -1261,7 +1262,8 @@ impl SessionInner {
         }
     }
 
-    pub(crate) fn handle_flow(&mut self, flow: &Flow, link: Option<&SenderLink>) {
+    /// Apply session flow state
+    fn handle_flow(&mut self, flow: &Flow) {
         // # AMQP1.0 2.5.6
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
@@ -1307,11 +1309,6 @@ impl SessionInner {
             }));
             self.post_frame(flow.into());
         }
-
-        // apply link flow
-        if let Some(link) = link {
-            link.inner.get_mut().apply_flow(flow);
-        }
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index cd8edad..22e760b 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -28,6 +28,8 @@ pub(crate) struct SenderLinkInner {
     link_credit: u32,
     pending_transfers: VecDeque<PendingTransfer>,
     pending_id: usize,
+    flow_seq: u64,
+    applied_flow_seq: u64,
     pub(crate) confirmed: bool,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
@@ -218,6 +220,8 @@ impl SenderLinkInner {
             link_credit: 0,
             pending_transfers: VecDeque::new(),
             pending_id: 0,
+            flow_seq: 0,
+            applied_flow_seq: 0,
             confirmed: true,
             error: None,
             closed: false,
@@ -329,9 +333,20 @@ impl SenderLinkInner {
         }
     }
 
-    pub(crate) fn apply_flow(&mut self, flow: &Flow) {
+    /// Flow frame is received
+    pub(crate) fn next_flow_seq(&mut self) -> u64 {
+        self.flow_seq += 1;
+        self.flow_seq
+    }
+
+    pub(crate) fn apply_flow(&mut self, flow: &Flow, seq: u64) {
         // #2.7.6
-        if let Some(credit) = flow.link_credit() {
+        // control service could complete in any order, ignore outdated frames
+        if let Some(credit) = flow.link_credit()
+            && seq > self.applied_flow_seq
+        {
+            self.applied_flow_seq = seq;
+
             // delivery-count is not set until receiver has seen our `Attach` frame
             let delivery_count = flow.delivery_count().unwrap_or(self.initial_delivery_count);
             let new_credit =
-- 
2.43.0


From b453d4db6e721edfa8131cdfadc582ab194a851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:42 +0000
Subject: [PATCH 17/51] fix: discard aborted deliveries, check size of the
 first fragment, do not hand out incomplete delivery

---
 src/delivery.rs |   5 +
 src/rcvlink.rs  | 285 ++++++++++++++++++++----------------------------
 2 files changed, 124 insertions(+), 166 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 40f61c2..fc00c2f 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -64,6 +64,11 @@ impl Delivery {
         }
     }
 
+    /// Drop delivery, it is settled by remote
+    pub(crate) fn discard(self) {
+        self.set_flag(Flags::REMOTE_SETTLED);
+    }
+
     pub fn id(&self) -> DeliveryNumber {
         self.id
     }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 823dbfd..5a66e96 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -4,9 +4,9 @@ use std::{
 };
 
 use ntex_amqp_codec::protocol::{
-    self as codec, Attach, Disposition, Error, Handle, LinkError, ReceiverSettleMode, Role,
-    SenderSettleMode, Source, Symbols, TerminusDurability, TerminusExpiryPolicy, Transfer,
-    TransferBody,
+    self as codec, Attach, Disposition, Error, ErrorCondition, Handle, LinkError,
+    ReceiverSettleMode, Role, SenderSettleMode, Source, Symbols, TerminusDurability,
+    TerminusExpiryPolicy, Transfer, TransferBody,
 };
 use ntex_amqp_codec::{Encode, types::Symbol, types::Variant};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -32,10 +32,18 @@ pub(crate) struct ReceiverLinkInner {
     credit: u32,
     delivery_count: u32,
     error: Option<Error>,
-    partial_body: Option<BytesMut>,
+    partial: Option<PartialDelivery>,
     max_message_size: u64,
 }
 
+#[derive(Debug)]
+/// Incomplete delivery, first transfer frame is used as primary
+struct PartialDelivery {
+    delivery: Delivery,
+    transfer: Transfer,
+    body: BytesMut,
+}
+
 impl Eq for ReceiverLink {}
 
 impl PartialEq<ReceiverLink> for ReceiverLink {
@@ -105,22 +113,12 @@ impl ReceiverLink {
 
     /// Check deliveries
     pub fn has_deliveries(&self) -> bool {
-        let inner = self.inner.get_ref();
-        if inner.partial_body.is_none() {
-            !inner.queue.is_empty()
-        } else {
-            inner.queue.len() > 1
-        }
+        !self.inner.get_ref().queue.is_empty()
     }
 
     /// Get delivery
     pub fn get_delivery(&self) -> Option<(Delivery, Transfer)> {
-        let inner = self.inner.get_mut();
-        if inner.partial_body.is_none() || inner.queue.len() > 1 {
-            inner.queue.pop_front()
-        } else {
-            None
-        }
+        self.inner.get_mut().queue.pop_front()
     }
 
     /// Send disposition frame
@@ -186,18 +184,7 @@ impl ReceiverLink {
     ) -> Poll<Option<Result<(Delivery, Transfer), AmqpProtocolError>>> {
         let inner = self.inner.get_mut();
 
-        if inner.partial_body.is_some() && inner.queue.len() == 1 {
-            if inner.closed {
-                if let Some(err) = inner.error.take() {
-                    Poll::Ready(Some(Err(AmqpProtocolError::LinkDetached(Some(err)))))
-                } else {
-                    Poll::Ready(None)
-                }
-            } else {
-                inner.reader_task.register(cx.waker());
-                Poll::Pending
-            }
-        } else if let Some(tr) = inner.queue.pop_front() {
+        if let Some(tr) = inner.queue.pop_front() {
             Poll::Ready(Some(Ok(tr)))
         } else if inner.closed {
             if let Some(err) = inner.error.take() {
@@ -239,7 +226,7 @@ impl ReceiverLinkInner {
             queue: VecDeque::with_capacity(4),
             credit: 0,
             error: None,
-            partial_body: None,
+            partial: None,
             delivery_count: frame.initial_delivery_count().unwrap_or(0),
             max_message_size: 262_144,
             reader_task: LocalWaker::new(),
@@ -303,157 +290,123 @@ impl ReceiverLinkInner {
             .rcv_link_flow(self.handle, self.delivery_count, credit);
     }
 
-    #[allow(clippy::unnecessary_unwrap)]
     pub(crate) fn handle_transfer(
         &mut self,
         mut transfer: Transfer,
         inner: &Cell<ReceiverLinkInner>,
     ) -> Action {
-        if self.credit == 0 {
+        let mut partial = if let Some(partial) = self.partial.take() {
+            // if delivery_id is set, then it should be equal to first transfer
+            if transfer
+                .delivery_id()
+                .is_some_and(|id| id != partial.delivery.id())
+            {
+                return self.detach(LinkError::DetachForced.into(), Some("delivery_id is wrong"));
+            }
+            Some(partial)
+        } else if self.credit == 0 {
             // check link credit
-            let err = Error(Box::new(codec::ErrorInner {
-                condition: LinkError::TransferLimitExceeded.into(),
-                description: None,
-                info: None,
-            }));
-            let _ = self.close(Some(err));
-            Action::None
+            return self.detach(LinkError::TransferLimitExceeded.into(), None);
         } else {
-            if !transfer.0.more {
-                self.credit -= 1;
+            None
+        };
+
+        // sender aborted delivery, it is settled and must be discarded
+        if transfer.0.aborted {
+            if let Some(partial) = partial {
+                partial.delivery.discard();
             }
+            self.completed();
+            return Action::None;
+        }
 
-            // handle batched transfer
-            if let Some(ref mut body) = self.partial_body {
-                if transfer.0.delivery_id.is_some() {
-                    // if delivery_id is set, then it should be equal to first transfer
-                    if self
-                        .queue
-                        .back()
-                        .is_none_or(|back| Some(back.0.id()) != transfer.0.delivery_id)
-                    {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::DetachForced.into(),
-                            description: Some(ByteString::from_static("delivery_id is wrong")),
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-                }
+        // merge transfer data and check size
+        if (partial.is_some() || transfer.more())
+            && let Some(transfer_body) = transfer.0.body.take()
+        {
+            let body_size = partial.as_ref().map_or(0, |p| p.body.len());
+            if self.max_message_size != 0
+                && (body_size + transfer_body.len()) as u64 > self.max_message_size
+            {
+                return self.detach(LinkError::MessageSizeExceeded.into(), None);
+            }
 
-                // merge transfer data and check size
-                if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
-                    transfer_body.encode(body);
-                }
+            if let Some(ref mut partial) = partial {
+                transfer_body.encode(&mut partial.body);
+            } else {
+                transfer.0.body = Some(transfer_body);
+            }
+        }
 
-                if transfer.more() {
-                    // dont need to update queue, we use first transfer frame as primary
-                    Action::None
-                } else {
-                    // received last partial transfer
-                    self.delivery_count += 1;
-                    let partial_body = self.partial_body.take();
-                    if partial_body.is_some() && !self.queue.is_empty() {
-                        self.queue.back_mut().unwrap().1.0.body =
-                            Some(TransferBody::Data(partial_body.unwrap().freeze()));
-                        if self.queue.len() == 1 {
-                            self.wake();
-                        }
-                        Action::Transfer(ReceiverLink {
-                            inner: inner.clone(),
-                        })
-                    } else {
-                        log::error!("{}: Inconsistent state, bug", self.session.tag());
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::DetachForced.into(),
-                            description: Some(ByteString::from_static("Internal error")),
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        Action::None
-                    }
-                }
-            } else if transfer.more() {
-                // handle first transfer in batch
-                if let Some(id) = transfer.delivery_id() {
-                    let body = if let Some(body) = transfer.0.body.take() {
-                        match body {
-                            TransferBody::Data(data) => BytesMut::copy_from_slice(&data),
-                            TransferBody::Message(msg) => {
-                                let mut buf = self
-                                    .session
-                                    .connection()
-                                    .config()
-                                    .write_buf()
-                                    .buf_with_capacity(msg.encoded_size());
-                                msg.encode(&mut buf);
-                                buf
-                            }
-                        }
-                    } else {
-                        self.session
-                            .connection()
-                            .config()
-                            .write_buf()
-                            .buf_with_capacity(16)
-                    };
-                    self.partial_body = Some(body);
-
-                    let delivery = Delivery::new_rcv(
-                        id,
-                        self.handle,
-                        transfer.delivery_tag().cloned().unwrap_or_else(Bytes::new),
-                        transfer.settled().unwrap_or_default(),
-                        self.session.clone(),
-                    );
-                    self.queue.push_back((delivery, transfer));
-                    Action::None
-                } else {
-                    let err = Error(Box::new(codec::ErrorInner {
-                        condition: LinkError::DetachForced.into(),
-                        description: Some(ByteString::from_static("delivery_id is required")),
-                        info: None,
-                    }));
-                    let _ = self.close(Some(err));
-                    Action::None
-                }
-            } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
-                let delivery = Delivery::new_rcv(
-                    id,
-                    self.handle,
-                    transfer.delivery_tag().cloned().unwrap_or_else(Bytes::new),
-                    transfer.settled().unwrap_or_default(),
-                    self.session.clone(),
-                );
-                self.queue.push_back((delivery, transfer));
-                if self.queue.len() == 1 {
-                    self.wake();
+        let more = transfer.more();
+        let (delivery, transfer) = if let Some(mut partial) = partial {
+            if more {
+                // dont need to update queue, we use first transfer frame as primary
+                self.partial = Some(partial);
+                return Action::None;
+            }
+            // received last partial transfer
+            partial.transfer.0.body = Some(TransferBody::Data(partial.body.freeze()));
+            (partial.delivery, partial.transfer)
+        } else if let Some(id) = transfer.delivery_id() {
+            let delivery = Delivery::new_rcv(
+                id,
+                self.handle,
+                transfer.delivery_tag().cloned().unwrap_or_else(Bytes::new),
+                transfer.settled().unwrap_or_default(),
+                self.session.clone(),
+            );
+
+            // handle first transfer in batch
+            if more {
+                let mut body = self
+                    .session
+                    .connection()
+                    .config()
+                    .write_buf()
+                    .buf_with_capacity(transfer.body().map_or(16, TransferBody::len));
+                if let Some(transfer_body) = transfer.0.body.take() {
+                    transfer_body.encode(&mut body);
                 }
-                Action::Transfer(ReceiverLink {
-                    inner: inner.clone(),
-                })
-            } else {
-                let err = Error(Box::new(codec::ErrorInner {
-                    condition: LinkError::DetachForced.into(),
-                    description: Some(ByteString::from_static("delivery_id is required")),
-                    info: None,
-                }));
-                let _ = self.close(Some(err));
-                Action::None
+                self.partial = Some(PartialDelivery {
+                    delivery,
+                    transfer,
+                    body,
+                });
+                return Action::None;
             }
+            (delivery, transfer)
+        } else {
+            return self.detach(
+                LinkError::DetachForced.into(),
+                Some("delivery_id is required"),
+            );
+        };
+
+        self.completed();
+        self.queue.push_back((delivery, transfer));
+        if self.queue.len() == 1 {
+            self.wake();
         }
+        Action::Transfer(ReceiverLink {
+            inner: inner.clone(),
+        })
+    }
+
+    /// Delivery is completed
+    fn completed(&mut self) {
+        self.credit -= 1;
+        self.delivery_count = self.delivery_count.wrapping_add(1);
+    }
+
+    fn detach(&mut self, condition: ErrorCondition, description: Option<&'static str>) -> Action {
+        let err = Error(Box::new(codec::ErrorInner {
+            condition,
+            description: description.map(ByteString::from_static),
+            info: None,
+        }));
+        let _ = self.close(Some(err));
+        Action::None
     }
 }
 
-- 
2.43.0


From fabb17e303ac506891371983662f596008f98b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 18/51] fix: announce whole credit of the receiver link and
 only while it is attached

---
 src/dispatcher.rs |  4 ++--
 src/rcvlink.rs    | 29 ++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 1f0818b..8b5305e 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -344,8 +344,8 @@ where
                         let result = fut.await;
                         if let Err(err) = result {
                             let _ = link.close_with_error(Error::from(err)).await;
-                        } else if link.confirm_receiver_link(response) {
-                            link.set_link_credit(50);
+                        } else {
+                            link.confirm_receiver_link(response, 50);
                         }
                     });
                 }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 5a66e96..eb026f9 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -27,6 +27,7 @@ pub(crate) struct ReceiverLinkInner {
     remote_handle: Handle,
     session: Session,
     closed: bool,
+    confirmed: bool,
     reader_task: LocalWaker,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
@@ -91,15 +92,19 @@ impl ReceiverLink {
         self.inner.get_ref().error.as_ref()
     }
 
-    pub(crate) fn confirm_receiver_link(&self, response: Attach) -> bool {
+    pub(crate) fn confirm_receiver_link(&self, response: Attach, credit: u32) {
         let inner = self.inner.get_mut();
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
-        inner
+        if inner
             .session
             .inner
             .get_mut()
             .confirm_receiver_link(&self.inner, response, size)
+        {
+            inner.confirmed = true;
+            inner.set_link_credit(credit);
+        }
     }
 
     pub fn set_link_credit(&self, credit: u32) {
@@ -223,6 +228,7 @@ impl ReceiverLinkInner {
             remote_handle,
             session: Session::new(session),
             closed: false,
+            confirmed: false,
             queue: VecDeque::with_capacity(4),
             credit: 0,
             error: None,
@@ -235,6 +241,7 @@ impl ReceiverLinkInner {
 
     /// Peer confirmed locally initiated link
     pub(crate) fn remote_attached(&mut self, frame: &Attach) {
+        self.confirmed = true;
         self.remote_handle = frame.handle();
         self.delivery_count = frame.initial_delivery_count().unwrap_or(0);
     }
@@ -283,11 +290,19 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
-        self.session
-            .inner
-            .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, credit);
+        if self.closed {
+            return;
+        }
+        self.credit = self.credit.saturating_add(credit);
+
+        // flow is sent after attach
+        if self.confirmed {
+            self.session.inner.get_mut().rcv_link_flow(
+                self.handle,
+                self.delivery_count,
+                self.credit,
+            );
+        }
     }
 
     pub(crate) fn handle_transfer(
-- 
2.43.0


From 1e7eb19d77a0f8924ef8ce334d7e3e3742d100f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 19/51] fix: local receiver link uses announced max message
 size

---
 src/session.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index ad07e79..8265cb2 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -754,6 +754,9 @@ impl SessionInner {
             token as u32,
             &frame,
         ));
+        // enforce announced size
+        ReceiverLink::new(inner.clone())
+            .set_max_message_size(frame.max_message_size().unwrap_or(0));
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
-- 
2.43.0


From 1d702816f6c001061f76be3cd58d9b439f1803ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 20/51] fix: router handler must outlive its calls and not its
 link

---
 src/router.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..1e60a07 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -98,11 +98,18 @@ impl<S: 'static> Service<Message> for RouterService<S> {
 
                         match hnd.create(link).await {
                             Ok(srv) => {
-                                log::trace!("Handler service is created for {}", rcv_link.name());
-                                self.0
-                                    .get_mut()
-                                    .handlers
-                                    .insert(rcv_link.clone(), Some(Pipeline::new(srv)));
+                                let srv = Pipeline::new(srv);
+                                if let Some(item) = self.0.get_mut().handlers.get_mut(&rcv_link) {
+                                    log::trace!(
+                                        "Handler service is created for {}",
+                                        rcv_link.name()
+                                    );
+                                    *item = Some(srv);
+                                } else {
+                                    // link is detached already
+                                    srv.shutdown().await;
+                                    return Ok(());
+                                }
                                 if let Some((delivery, tr)) = rcv_link.get_delivery() {
                                     service_call(rcv_link, delivery, tr, &self.0).await
                                 } else {
@@ -110,6 +117,7 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                 }
                             }
                             Err(e) => {
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 log::error!(
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
@@ -199,7 +207,9 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // link could be detached while handler is running
+    let srv = inner.handlers.get(&link).cloned().flatten();
+    if let Some(srv) = srv {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0


From 2389a73837ed556af82ef7780562328f99fbba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 21/51] fix: zero max message size of the peer means no limit

---
 src/delivery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index fc00c2f..34f77b5 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -358,7 +358,9 @@ impl TransferBuilder {
         } else if inner.closed {
             Err(AmqpProtocolError::Disconnected)
         } else {
+            // zero means there is no limit
             if let Some(limit) = inner.max_message_size
+                && limit != 0
                 && self.data.len() > limit as usize
             {
                 return Err(AmqpProtocolError::BodyTooLarge);
-- 
2.43.0


From 1146e930f2714635ebec28c8e06f5a321fa0281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 22/51] fix: report a compound size smaller than its own count
 field instead of underflowing

---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..832989a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From dc1ad4a937619c33463287a1cd6418fb7212b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 23/51] fix: decode timestamps before 1970 that fall on a whole
 second

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 832989a..58954cf 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -613,21 +613,9 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .single()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From f5f0424608da95ce0a3798ccc8d7fc8799ffe18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:23 +0000
Subject: [PATCH 24/51] fix: accept the ulong0 encoding of a descriptor, which
 the encoder itself produces

---
 codec/src/codec/decode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 58954cf..4aed173 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -482,10 +482,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG | codec::FORMATCODE_ULONG_0 => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 24ad489ff54c5737468b572831618eebc2cfeeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 25/51] fix: hash maps nested as map keys instead of panicking

---
 codec/src/types/variant.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..eab2d17 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,4 +1,4 @@
-use std::hash::{Hash, Hasher};
+use std::hash::{DefaultHasher, Hash, Hasher};
 
 use chrono::{DateTime, Utc};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -253,8 +253,16 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in different order, the combination must not depend on it
+        let mut hash = 0u64;
+        for entry in &self.map {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            hash = hash.wrapping_add(hasher.finish());
+        }
+        state.write_usize(self.map.len());
+        state.write_u64(hash);
     }
 }
 
-- 
2.43.0


From 7960e4376ea604f812e8459ebfd1b46939855e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 26/51] fix: compute the size of a message each time, it may
 have been changed since it was last asked for

---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From 97074d592fc7e6aa31ac3552fd89d80606829660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 27/51] fix: encode arrays of more than 255 zero-width elements
 with a four-byte count

---
 codec/src/types/array.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..efd3503 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -57,10 +57,18 @@ where
     }
 }
 
+impl Array {
+    /// One-byte size and count fields are not enough. Elements may be of zero width,
+    /// so the count does not follow from the size.
+    fn is_wide(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u32::from(u8::MAX)
+    }
+}
+
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_wide(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -71,7 +79,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_wide(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From b993f06adb68262fab15834cc64304aec4c16c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 28/51] fix: decode compound items from the compound's own
 bytes only and reserve no memory for a count the peer merely claims

---
 codec/src/codec/decode.rs | 107 +++++++++++++++++++++++++-------------
 codec/src/types/array.rs  |   8 +--
 2 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 4aed173..d5b064a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{char, cmp, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -243,18 +243,15 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
     for collections::HashMap<K, V, S>
 {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
+        let (mut map_input, count) = map_items(input, fmt)?;
         let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            collections::HashMap::with_capacity_and_hasher(reserve(count), Default::default());
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
             map.insert(key, value); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        ensure_consumed(&map_input)?;
         Ok(map)
     }
 }
@@ -263,7 +260,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut data = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut data)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -271,46 +269,34 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
-        for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
-            result.push(decoded);
-        }
-        // todo: ensure header.size bytes were read out from input
-        Ok(result)
+        decode_array_items(&mut data, header.count, elem_fmt)
     }
 }
 
 impl DecodeFormatted for VecSymbolMap {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let (mut map_input, count) = map_items(input, fmt)?;
+        let mut map = Vec::with_capacity(reserve(count));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: mg: ensure None is returned
         }
-        // todo: ensure header.size bytes were read out from input after header
+        ensure_consumed(&map_input)?;
         Ok(VecSymbolMap(map))
     }
 }
 
 impl DecodeFormatted for VecStringMap {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let (mut map_input, count) = map_items(input, fmt)?;
+        let mut map = Vec::with_capacity(reserve(count));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        ensure_consumed(&map_input)?;
         Ok(VecStringMap(map))
     }
 }
@@ -337,24 +323,25 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
-        for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+        let (mut data, count) = list_items(input, fmt)?;
+        let mut result: Vec<Variant> = Vec::with_capacity(reserve(count));
+        for _ in 0..count {
+            let decoded = Variant::decode(&mut data)?;
             result.push(decoded);
         }
+        ensure_consumed(&data)?;
         Ok(List(result))
     }
 }
 
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = ListHeader::decode_with_format(input, fmt)?;
+        let (mut data, count) = list_items(input, fmt)?;
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
-        for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+        let mut result: Vec<T> = Vec::with_capacity(reserve(count));
+        for _ in 0..count {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut data)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
@@ -363,6 +350,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
                 return Err(AmqpParseError::UnexpectedType("Expected compound type"));
             }
         }
+        ensure_consumed(&data)?;
 
         Ok(ListDescribed(result))
     }
@@ -611,6 +599,55 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     Ok((size, count))
 }
 
+/// Number of items to reserve memory for ahead of decoding them. The count comes
+/// from the peer and says nothing about what is really there.
+fn reserve(count: u32) -> usize {
+    cmp::min(count as usize, 16)
+}
+
+fn ensure_consumed(data: &Bytes) -> Result<(), AmqpParseError> {
+    if data.is_empty() {
+        Ok(())
+    } else {
+        Err(AmqpParseError::InvalidSize)
+    }
+}
+
+/// Content of a list and number of items in it
+fn list_items(input: &mut Bytes, fmt: u8) -> Result<(Bytes, u32), AmqpParseError> {
+    let header = ListHeader::decode_with_format(input, fmt)?;
+    decode_check_len!(input, header.size as usize);
+    Ok((input.split_to(header.size as usize), header.count))
+}
+
+/// Content of a map and number of key-value pairs in it
+fn map_items(input: &mut Bytes, fmt: u8) -> Result<(Bytes, u32), AmqpParseError> {
+    let header = MapHeader::decode_with_format(input, fmt)?;
+    decode_check_len!(input, header.size as usize);
+    if header.count % 2 != 0 {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    Ok((input.split_to(header.size as usize), header.count / 2))
+}
+
+/// Elements of an array, `data` is what follows the element constructor
+pub(crate) fn decode_array_items<T: DecodeFormatted>(
+    data: &mut Bytes,
+    count: u32,
+    fmt: u8,
+) -> Result<Vec<T>, AmqpParseError> {
+    // elements may be of zero width, then nothing else limits their number
+    if count as usize > cmp::max(data.len(), u16::MAX as usize) {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    let mut result: Vec<T> = Vec::with_capacity(reserve(count));
+    for _ in 0..count {
+        result.push(T::decode_with_format(data, fmt)?);
+    }
+    ensure_consumed(data)?;
+    Ok(result)
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     Utc.timestamp_millis_opt(millis)
         .single()
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index efd3503..83e1c5d 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -1,5 +1,6 @@
 use ntex_bytes::{BufMut, Bytes, BytesMut};
 
+use crate::codec::decode::decode_array_items;
 use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode};
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
@@ -39,12 +40,7 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
-        for _ in 0..self.count {
-            let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
-            result.push(decoded);
-        }
-        Ok(result)
+        decode_array_items(&mut buf, self.count, self.element_constructor.format_code())
     }
 }
 
-- 
2.43.0


From cda1ca96b119dfa0c7c303f775d5eb48e70ce289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 29/51] fix: limit how deeply values may be nested instead of
 running out of stack

---
 codec/src/codec/decode.rs | 231 +++++++++++++++++++++-----------------
 1 file changed, 129 insertions(+), 102 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index d5b064a..7755450 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -323,14 +323,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let (mut data, count) = list_items(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(reserve(count));
-        for _ in 0..count {
-            let decoded = Variant::decode(&mut data)?;
-            result.push(decoded);
-        }
-        ensure_consumed(&data)?;
-        Ok(List(result))
+        decode_list(input, fmt, 0)
     }
 }
 
@@ -356,105 +349,139 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     }
 }
 
+/// Limit of values nested in each other, decoding them takes stack
+const MAX_NESTING: usize = 128;
+
+fn decode_list(input: &mut Bytes, fmt: u8, depth: usize) -> Result<List, AmqpParseError> {
+    let (mut data, count) = list_items(input, fmt)?;
+    let mut result: Vec<Variant> = Vec::with_capacity(reserve(count));
+    for _ in 0..count {
+        let fmt = codec::decode_format_code(&mut data)?;
+        result.push(decode_variant(&mut data, fmt, depth)?);
+    }
+    ensure_consumed(&data)?;
+    Ok(List(result))
+}
+
+fn decode_map(input: &mut Bytes, fmt: u8, depth: usize) -> Result<VariantMap, AmqpParseError> {
+    let (mut data, count) = map_items(input, fmt)?;
+    let mut map = HashMap::with_capacity_and_hasher(reserve(count), Default::default());
+    for _ in 0..count {
+        let fmt = codec::decode_format_code(&mut data)?;
+        let key = decode_variant(&mut data, fmt, depth)?;
+        let fmt = codec::decode_format_code(&mut data)?;
+        let value = decode_variant(&mut data, fmt, depth)?;
+        map.insert(key, value);
+    }
+    ensure_consumed(&data)?;
+    Ok(VariantMap::new(map))
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        match fmt {
-            codec::FORMATCODE_NULL => Ok(Variant::Null),
-            codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
-            codec::FORMATCODE_BOOLEAN_FALSE => Ok(Variant::Boolean(false)),
-            codec::FORMATCODE_BOOLEAN_TRUE => Ok(Variant::Boolean(true)),
-            codec::FORMATCODE_UINT_0 => Ok(Variant::Uint(0)),
-            codec::FORMATCODE_ULONG_0 => Ok(Variant::Ulong(0)),
-            codec::FORMATCODE_UBYTE => u8::decode_with_format(input, fmt).map(Variant::Ubyte),
-            codec::FORMATCODE_USHORT => u16::decode_with_format(input, fmt).map(Variant::Ushort),
-            codec::FORMATCODE_UINT => u32::decode_with_format(input, fmt).map(Variant::Uint),
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Variant::Ulong),
-            codec::FORMATCODE_BYTE => i8::decode_with_format(input, fmt).map(Variant::Byte),
-            codec::FORMATCODE_SHORT => i16::decode_with_format(input, fmt).map(Variant::Short),
-            codec::FORMATCODE_INT => i32::decode_with_format(input, fmt).map(Variant::Int),
-            codec::FORMATCODE_LONG => i64::decode_with_format(input, fmt).map(Variant::Long),
-            codec::FORMATCODE_SMALLUINT => u32::decode_with_format(input, fmt).map(Variant::Uint),
-            codec::FORMATCODE_SMALLULONG => u64::decode_with_format(input, fmt).map(Variant::Ulong),
-            codec::FORMATCODE_SMALLINT => i32::decode_with_format(input, fmt).map(Variant::Int),
-            codec::FORMATCODE_SMALLLONG => i64::decode_with_format(input, fmt).map(Variant::Long),
-            codec::FORMATCODE_FLOAT => {
-                f32::decode_with_format(input, fmt).map(|o| Variant::Float(OrderedFloat(o)))
-            }
-            codec::FORMATCODE_DOUBLE => {
-                f64::decode_with_format(input, fmt).map(|o| Variant::Double(OrderedFloat(o)))
-            }
-            codec::FORMATCODE_DECIMAL32 => read_fixed_bytes(input).map(Variant::Decimal32),
-            codec::FORMATCODE_DECIMAL64 => read_fixed_bytes(input).map(Variant::Decimal64),
-            codec::FORMATCODE_DECIMAL128 => read_fixed_bytes(input).map(Variant::Decimal128),
-            codec::FORMATCODE_CHAR => char::decode_with_format(input, fmt).map(Variant::Char),
-            codec::FORMATCODE_TIMESTAMP => {
-                DateTime::<Utc>::decode_with_format(input, fmt).map(Variant::Timestamp)
-            }
-            codec::FORMATCODE_UUID => Uuid::decode_with_format(input, fmt).map(Variant::Uuid),
-            codec::FORMATCODE_BINARY8 | codec::FORMATCODE_BINARY32 => {
-                Bytes::decode_with_format(input, fmt).map(Variant::Binary)
-            }
-            codec::FORMATCODE_STRING8 | codec::FORMATCODE_STRING32 => {
-                ByteString::decode_with_format(input, fmt).map(|o| Variant::String(o.into()))
-            }
-            codec::FORMATCODE_SYMBOL8 | codec::FORMATCODE_SYMBOL32 => {
-                Symbol::decode_with_format(input, fmt).map(Variant::Symbol)
-            }
-            codec::FORMATCODE_LIST0 => Ok(Variant::List(List(vec![]))),
-            codec::FORMATCODE_LIST8 | codec::FORMATCODE_LIST32 => {
-                List::decode_with_format(input, fmt).map(Variant::List)
-            }
-            codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {
-                Array::decode_with_format(input, fmt).map(Variant::Array)
-            }
-            codec::FORMATCODE_MAP8 | codec::FORMATCODE_MAP32 => {
-                HashMap::<Variant, Variant>::decode_with_format(input, fmt)
-                    .map(|o| Variant::Map(VariantMap::new(o)))
-            }
-            codec::FORMATCODE_DESCRIBED => {
-                let descriptor = Descriptor::decode(input)?;
-                let format_code = {
-                    decode_check_len!(input, 1);
-                    let code = input[0];
-                    Ok(code)
-                }?;
-                match format_code {
-                    codec::FORMATCODE_LIST0 => {
-                        input.advance(1); // advance past format code
-                        Ok(Variant::DescribedCompound(DescribedCompound::new(
-                            descriptor,
-                            Bytes::from_static(&[codec::FORMATCODE_LIST0]),
-                        )))
-                    }
-                    codec::FORMATCODE_LIST8 | codec::FORMATCODE_MAP8 | codec::FORMATCODE_ARRAY8 => {
-                        decode_check_len!(input, 2);
-                        let size = input[1] as usize;
-                        decode_check_len!(input, 2 + size);
-                        let data = input.split_to(2 + size);
-                        Ok(Variant::DescribedCompound(DescribedCompound::new(
-                            descriptor, data,
-                        )))
-                    }
-                    codec::FORMATCODE_LIST32
-                    | codec::FORMATCODE_MAP32
-                    | codec::FORMATCODE_ARRAY32 => {
-                        decode_check_len!(input, 5);
-                        let size = u32::from_be_bytes(input[1..5].try_into().unwrap()) as usize;
-                        decode_check_len!(input, 5 + size);
-                        let data = input.split_to(5 + size);
-                        Ok(Variant::DescribedCompound(DescribedCompound::new(
-                            descriptor, data,
-                        )))
-                    }
-                    _ => {
-                        input.advance(1); // advance past format code
-                        let value = Variant::decode_with_format(input, format_code)?;
-                        Ok(Variant::Described((descriptor, Box::new(value))))
-                    }
+        decode_variant(input, fmt, 0)
+    }
+}
+
+fn decode_variant(input: &mut Bytes, fmt: u8, depth: usize) -> Result<Variant, AmqpParseError> {
+    if depth > MAX_NESTING {
+        return Err(AmqpParseError::UnexpectedType(
+            "Values are nested too deeply",
+        ));
+    }
+    match fmt {
+        codec::FORMATCODE_NULL => Ok(Variant::Null),
+        codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
+        codec::FORMATCODE_BOOLEAN_FALSE => Ok(Variant::Boolean(false)),
+        codec::FORMATCODE_BOOLEAN_TRUE => Ok(Variant::Boolean(true)),
+        codec::FORMATCODE_UINT_0 => Ok(Variant::Uint(0)),
+        codec::FORMATCODE_ULONG_0 => Ok(Variant::Ulong(0)),
+        codec::FORMATCODE_UBYTE => u8::decode_with_format(input, fmt).map(Variant::Ubyte),
+        codec::FORMATCODE_USHORT => u16::decode_with_format(input, fmt).map(Variant::Ushort),
+        codec::FORMATCODE_UINT => u32::decode_with_format(input, fmt).map(Variant::Uint),
+        codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Variant::Ulong),
+        codec::FORMATCODE_BYTE => i8::decode_with_format(input, fmt).map(Variant::Byte),
+        codec::FORMATCODE_SHORT => i16::decode_with_format(input, fmt).map(Variant::Short),
+        codec::FORMATCODE_INT => i32::decode_with_format(input, fmt).map(Variant::Int),
+        codec::FORMATCODE_LONG => i64::decode_with_format(input, fmt).map(Variant::Long),
+        codec::FORMATCODE_SMALLUINT => u32::decode_with_format(input, fmt).map(Variant::Uint),
+        codec::FORMATCODE_SMALLULONG => u64::decode_with_format(input, fmt).map(Variant::Ulong),
+        codec::FORMATCODE_SMALLINT => i32::decode_with_format(input, fmt).map(Variant::Int),
+        codec::FORMATCODE_SMALLLONG => i64::decode_with_format(input, fmt).map(Variant::Long),
+        codec::FORMATCODE_FLOAT => {
+            f32::decode_with_format(input, fmt).map(|o| Variant::Float(OrderedFloat(o)))
+        }
+        codec::FORMATCODE_DOUBLE => {
+            f64::decode_with_format(input, fmt).map(|o| Variant::Double(OrderedFloat(o)))
+        }
+        codec::FORMATCODE_DECIMAL32 => read_fixed_bytes(input).map(Variant::Decimal32),
+        codec::FORMATCODE_DECIMAL64 => read_fixed_bytes(input).map(Variant::Decimal64),
+        codec::FORMATCODE_DECIMAL128 => read_fixed_bytes(input).map(Variant::Decimal128),
+        codec::FORMATCODE_CHAR => char::decode_with_format(input, fmt).map(Variant::Char),
+        codec::FORMATCODE_TIMESTAMP => {
+            DateTime::<Utc>::decode_with_format(input, fmt).map(Variant::Timestamp)
+        }
+        codec::FORMATCODE_UUID => Uuid::decode_with_format(input, fmt).map(Variant::Uuid),
+        codec::FORMATCODE_BINARY8 | codec::FORMATCODE_BINARY32 => {
+            Bytes::decode_with_format(input, fmt).map(Variant::Binary)
+        }
+        codec::FORMATCODE_STRING8 | codec::FORMATCODE_STRING32 => {
+            ByteString::decode_with_format(input, fmt).map(|o| Variant::String(o.into()))
+        }
+        codec::FORMATCODE_SYMBOL8 | codec::FORMATCODE_SYMBOL32 => {
+            Symbol::decode_with_format(input, fmt).map(Variant::Symbol)
+        }
+        codec::FORMATCODE_LIST0 => Ok(Variant::List(List(vec![]))),
+        codec::FORMATCODE_LIST8 | codec::FORMATCODE_LIST32 => {
+            decode_list(input, fmt, depth + 1).map(Variant::List)
+        }
+        codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {
+            Array::decode_with_format(input, fmt).map(Variant::Array)
+        }
+        codec::FORMATCODE_MAP8 | codec::FORMATCODE_MAP32 => {
+            decode_map(input, fmt, depth + 1).map(Variant::Map)
+        }
+        codec::FORMATCODE_DESCRIBED => {
+            let descriptor = Descriptor::decode(input)?;
+            let format_code = {
+                decode_check_len!(input, 1);
+                let code = input[0];
+                Ok(code)
+            }?;
+            match format_code {
+                codec::FORMATCODE_LIST0 => {
+                    input.advance(1); // advance past format code
+                    Ok(Variant::DescribedCompound(DescribedCompound::new(
+                        descriptor,
+                        Bytes::from_static(&[codec::FORMATCODE_LIST0]),
+                    )))
+                }
+                codec::FORMATCODE_LIST8 | codec::FORMATCODE_MAP8 | codec::FORMATCODE_ARRAY8 => {
+                    decode_check_len!(input, 2);
+                    let size = input[1] as usize;
+                    decode_check_len!(input, 2 + size);
+                    let data = input.split_to(2 + size);
+                    Ok(Variant::DescribedCompound(DescribedCompound::new(
+                        descriptor, data,
+                    )))
+                }
+                codec::FORMATCODE_LIST32 | codec::FORMATCODE_MAP32 | codec::FORMATCODE_ARRAY32 => {
+                    decode_check_len!(input, 5);
+                    let size = u32::from_be_bytes(input[1..5].try_into().unwrap()) as usize;
+                    decode_check_len!(input, 5 + size);
+                    let data = input.split_to(5 + size);
+                    Ok(Variant::DescribedCompound(DescribedCompound::new(
+                        descriptor, data,
+                    )))
+                }
+                _ => {
+                    input.advance(1); // advance past format code
+                    let value = decode_variant(input, format_code, depth + 1)?;
+                    Ok(Variant::Described((descriptor, Box::new(value))))
                 }
             }
-            _ => Err(AmqpParseError::InvalidFormatCode(fmt)),
         }
+        _ => Err(AmqpParseError::InvalidFormatCode(fmt)),
     }
 }
 
-- 
2.43.0


From 81907bc1833f1fbc4e02e726d03d67e3f7afbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:52 +0000
Subject: [PATCH 30/51] fix: do not wait for another SASL frame after the
 outcome of a challenge

The exchange is over with the outcome: the peer's next bytes are the AMQP
protocol header, which was consumed as a SASL frame, so no peer that follows
the protocol could get through a challenge.
---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From ee684988e16593906f74e4f07a3aa65311e14b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 31/51] fix: a refused SASL outcome ends the handshake

outcome() handed out SaslSuccess whatever the code was, so a handshake that
reports the outcome and goes on to open(), like the one in the tests, let a
peer in that it had just refused.
---
 src/server/sasl.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 7478882..717c61c 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -148,6 +148,9 @@ impl SaslInit {
     }
 
     /// Sasl challenge outcome
+    ///
+    /// Any code other than `SaslCode::Ok` is sent to the peer and ends
+    /// the handshake with `HandshakeError::Sasl`.
     pub async fn outcome(self, code: SaslCode) -> Result<SaslSuccess, HandshakeError> {
         let state = self.state;
         let codec = self.codec;
@@ -163,6 +166,9 @@ impl SaslInit {
             .await
             .map_err(HandshakeError::from)?;
 
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
         Ok(SaslSuccess {
             state,
             local_config,
@@ -197,6 +203,9 @@ impl SaslResponse {
     }
 
     /// Sasl challenge outcome
+    ///
+    /// Any code other than `SaslCode::Ok` is sent to the peer and ends
+    /// the handshake with `HandshakeError::Sasl`.
     pub async fn outcome(self, code: SaslCode) -> Result<SaslSuccess, HandshakeError> {
         let state = self.state;
         let codec = self.codec;
@@ -212,6 +221,9 @@ impl SaslResponse {
             .await
             .map_err(HandshakeError::from)?;
 
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
         Ok(SaslSuccess {
             state,
             local_config,
-- 
2.43.0


From 2e000bafd300b30c6f04f46d569fbe4739cef9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:15 +0000
Subject: [PATCH 32/51] fix: client sends its SASL response only after the
 server's mechanisms

Any SASL frame was taken for the list of mechanisms, and the password sent
in answer to it.
---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..80228ee 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0


From 990af65041600f7b8df55ea9816d3dbce8e2663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 33/51] fix: honour idle time-outs of the peer below a second
 and a third

The remote idle time-out was truncated to whole seconds after taking a
quarter off, so that time-outs below 1334ms turned keep-alive frames off.
---
 src/client/connection.rs |  4 ++--
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 4 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..21889db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Remote idle time-out, with some allowance for latency
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - (self.idle_time_out >> 2))
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 08779f6cac38b8144e4ca38e5ef74f0aa84fc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 34/51] fix: keep sending keep-alive frames on an idle
 connection

The timer was not polled again after its reset, so nothing woke the
dispatcher for the second frame unless there was other traffic.
---
 src/dispatcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 8b5305e..eb614ed 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -139,8 +139,8 @@ where
             }
         }
 
-        // handle idle timeout
-        if self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
+        // handle idle timeout, polls the timer again after it is reset
+        while self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
             log::trace!(
                 "{}: Send keep-alive ping, timeout: {:?} secs",
                 self.sink.tag(),
-- 
2.43.0


From 8dba4674f1993ec4b65145fddc6363efffd846a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:28 +0000
Subject: [PATCH 35/51] fix: keep the error of a remote Detach in
 RemoteDetachReceiver

---
 src/session.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 8265cb2..dc71db9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1035,7 +1035,7 @@ impl SessionInner {
 
     #[allow(clippy::too_many_lines)]
     /// Handle `Detach` frame.
-    pub(crate) fn handle_detach(&mut self, mut frame: Detach) -> Action {
+    pub(crate) fn handle_detach(&mut self, frame: Detach) -> Action {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
@@ -1115,7 +1115,7 @@ impl SessionInner {
                             closed: true,
                             error: None,
                         }));
-                        link.remote_detached(frame.0.error.take());
+                        link.remote_detached(frame.error().cloned());
                         self.post_refused_attach(
                             link.handle(),
                             link.name().clone(),
@@ -1140,7 +1140,7 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Established(link) => {
-                        let error = frame.0.error.take();
+                        let error = frame.error().cloned();
 
                         // drop unsettled transfers
                         let link = ReceiverLink::new(link.inner.clone());
-- 
2.43.0


From 6dac87683d10f6d56f8159294bb68096faaeba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:34 +0000
Subject: [PATCH 36/51] fix: Delivery::wait() returns the error that ended the
 session

---
 src/delivery.rs | 6 +++++-
 src/session.rs  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 34f77b5..f68a45a 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -201,7 +201,11 @@ impl Delivery {
                 rx
             } else {
                 // session ended
-                return Err(AmqpProtocolError::LinkDetached(None));
+                let session = self.session.inner.get_ref();
+                return Err(session
+                    .error
+                    .clone()
+                    .unwrap_or(AmqpProtocolError::LinkDetached(None)));
             };
             if rx.await.is_err() {
                 return Err(AmqpProtocolError::ConnectionDropped);
diff --git a/src/session.rs b/src/session.rs
index dc71db9..a7cbd61 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -46,7 +46,7 @@ pub(crate) struct SessionInner {
     opening_senders: HashMap<ByteString, usize>,
     opening_receivers: HashMap<ByteString, usize>,
     remote_handles: HashMap<Handle, usize>,
-    error: Option<AmqpProtocolError>,
+    pub(crate) error: Option<AmqpProtocolError>,
     closed: condition::Condition,
 
     next_delivery_id: DeliveryNumber,
-- 
2.43.0


From 2466daa53ccbd9d2e742f0cb662079f2c712321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:39 +0000
Subject: [PATCH 37/51] fix: report the connection's error to a session that is
 being opened

---
 src/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index c7a8c02..7761c3b 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -614,7 +614,10 @@ async fn open_session(
             inner.post_frame(AmqpFrame::new(token as u16, begin.into()));
             let _ = inner;
 
-            rx.await.map_err(|_| AmqpProtocolError::Disconnected)
+            rx.await.map_err(|_| {
+                let error = con.get_ref().error.clone();
+                error.unwrap_or(AmqpProtocolError::Disconnected)
+            })
         }
     }
 }
-- 
2.43.0


From 5255f414aaeb5225a4be962b53c2f58b2f8a14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 38/51] fix: control service hears of the connection's end when
 its readiness check was interrupted

---
 src/dispatcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index eb614ed..c8280ab 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -158,6 +158,9 @@ where
             .0
             .get_mut()
             .set_error(AmqpProtocolError::Disconnected);
+
+        // readiness check could be in progress, `call` waits until it is completed
+        let _ = poll_fn(|cx| self.ctl_service.poll_ready(cx)).await;
         let _ = self
             .ctl_service
             .call(ControlFrame::new_kind(ControlFrameKind::Closed))
-- 
2.43.0


From acdec2dfecb990f174e68a59639c6c57411c60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 39/51] fix: router shuts down handler services when connection
 ends

---
 src/router.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index 1e60a07..c1527e2 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -199,6 +199,14 @@ impl<S: 'static> Service<Message> for RouterService<S> {
             }
         }
     }
+
+    async fn shutdown(&self) {
+        let handlers = std::mem::take(&mut self.0.get_mut().handlers);
+        let handlers: Vec<_> = handlers.into_values().flatten().collect();
+
+        log::trace!("Shutting down {} handler services", handlers.len());
+        let _ = join_all(handlers.iter().map(Pipeline::shutdown)).await;
+    }
 }
 
 async fn service_call<S>(
-- 
2.43.0


From 0fe53921eb996ab55a837ae4fce03e3ec6b6cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 40/51] fix: router does not call a handler service after its
 shutdown

---
 src/router.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index c1527e2..6eada78 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -226,6 +226,11 @@ async fn service_call<S>(
             return Ok(());
         }
 
+        // handler could be stopped while it is not ready
+        if !inner.handlers.contains_key(&link) {
+            return Ok(());
+        }
+
         if link.credit() == 0 {
             // self.has_credit = self.link.credit() != 0;
             link.set_link_credit(50);
-- 
2.43.0


From 3d439a148a9885c0ea52bf828c2d3bcf34b437ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:59 +0000
Subject: [PATCH 41/51] fix: control service is called in order

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index c8280ab..eb4bb13 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 1cfe787b9c8d11755a29a38d1c9b1dd3527ae4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:59 +0000
Subject: [PATCH 42/51] fix: calls that wait for the control service do not
 block shutdown

---
 src/dispatcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index eb4bb13..91b8534 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -160,6 +160,7 @@ where
             .set_error(AmqpProtocolError::Disconnected);
 
         // readiness check could be in progress, `call` waits until it is completed
+        self.ctl_fut.borrow_mut().clear();
         let _ = poll_fn(|cx| self.ctl_service.poll_ready(cx)).await;
         let _ = self
             .ctl_service
-- 
2.43.0


From 1d139e251b29c9d7d396e084f56ea977a9f07350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:59 +0000
Subject: [PATCH 43/51] fix: message service is not called after its shutdown

---
 src/dispatcher.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 91b8534..114d1fd 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -167,7 +167,7 @@ where
             .call(ControlFrame::new_kind(ControlFrameKind::Closed))
             .await;
 
-        self.service.shutdown().await;
+        poll_fn(|cx| self.service.poll_shutdown(cx)).await;
         self.ctl_service.shutdown().await;
     }
 
@@ -232,9 +232,9 @@ where
                     }
                     types::Action::DetachReceiver(link, frm) => {
                         let lnk = link.clone();
-                        let fut = self.service.call(types::Message::Detached(lnk));
+                        let srv = self.service.pipeline();
                         spawn(async move {
-                            let _ = fut.await;
+                            let _ = call_service(srv, types::Message::Detached(lnk)).await;
                         });
                         self.call_control_service(ControlFrame::new(
                             link.session().inner.clone(),
@@ -250,9 +250,10 @@ where
                             })
                             .collect();
 
-                        let fut = self.service.call(types::Message::DetachedAll(receivers));
+                        let srv = self.service.pipeline();
                         spawn(async move {
-                            let _ = fut.await;
+                            let msg = types::Message::DetachedAll(receivers);
+                            let _ = call_service(srv, msg).await;
                         });
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::RemoteSessionEnded(links),
@@ -339,17 +340,17 @@ where
             match frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(ref frm, ref mut pfrm, ref link) => {
                     let link = link.clone();
-                    let fut = self
-                        .service
-                        .call(types::Message::Attached(frm.clone(), link.clone()));
+                    let srv = self.service.pipeline();
+                    let msg = types::Message::Attached(frm.clone(), link.clone());
                     let response = pfrm.take();
 
                     ntex_rt::spawn(async move {
-                        let result = fut.await;
-                        if let Err(err) = result {
-                            let _ = link.close_with_error(Error::from(err)).await;
-                        } else {
-                            link.confirm_receiver_link(response, 50);
+                        match call_service(srv, msg).await {
+                            Ok(Some(())) => link.confirm_receiver_link(response, 50),
+                            Ok(None) => (),
+                            Err(err) => {
+                                let _ = link.close_with_error(Error::from(err)).await;
+                            }
                         }
                     });
                 }
@@ -382,6 +383,22 @@ where
     }
 }
 
+/// Call message service when it is ready, unless it is stopped already
+async fn call_service<S: Service<types::Message>>(
+    srv: Pipeline<S>,
+    msg: types::Message,
+) -> Result<Option<S::Response>, S::Error>
+where
+    S: 'static,
+{
+    srv.ready().await?;
+    if srv.is_shutdown() {
+        Ok(None)
+    } else {
+        srv.call_nowait(msg).await.map(Some)
+    }
+}
+
 pin_project_lite::pin_project! {
     pub struct ServiceResult<'f, F, E>
     where F: 'f
-- 
2.43.0


From 8c9dc19dc33c42d1d41c738735eb9d77c7792764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:33 +0000
Subject: [PATCH 44/51] fix: links that are being opened are detached with
 their session

---
 src/session.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index a7cbd61..3d6b53c 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -452,6 +452,10 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     Some(Either::Right((*link).clone()))
                 }
+                // link's service could be created already
+                Either::Right(ReceiverLinkState::Opening(inner)) => {
+                    Some(Either::Right(ReceiverLink::new(inner.clone())))
+                }
                 _ => None,
             })
             .collect()
-- 
2.43.0


From 4cb4371e35d542bc633416de04387a8460a38caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:03 +0000
Subject: [PATCH 45/51] fix: message service is not told of a link that is gone
 already

---
 src/dispatcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 114d1fd..060d691 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -339,6 +339,10 @@ where
         } else {
             match frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(ref frm, ref mut pfrm, ref link) => {
+                    // link could be detached already
+                    if link.is_closed() {
+                        return Ok(());
+                    }
                     let link = link.clone();
                     let srv = self.service.pipeline();
                     let msg = types::Message::Attached(frm.clone(), link.clone());
-- 
2.43.0


From 169a9ef2cad9b88eab2532eadf29aa92b4b14494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:09 +0000
Subject: [PATCH 46/51] fix: delivery is settled by any of its transfers

---
 src/delivery.rs | 10 ++++++++++
 src/rcvlink.rs  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index f68a45a..20ac64f 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -69,6 +69,16 @@ impl Delivery {
         self.set_flag(Flags::REMOTE_SETTLED);
     }
 
+    /// Delivery is sent settled
+    pub(crate) fn set_settled(&self) {
+        self.set_flag(Flags::LOCAL_SETTLED);
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_rcv_deliveries
+            .remove(&self.id);
+    }
+
     pub fn id(&self) -> DeliveryNumber {
         self.id
     }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index eb026f9..02f30ab 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -355,6 +355,11 @@ impl ReceiverLinkInner {
 
         let more = transfer.more();
         let (delivery, transfer) = if let Some(mut partial) = partial {
+            // delivery could be settled by any of its transfers
+            if transfer.settled().unwrap_or_default() {
+                partial.delivery.set_settled();
+                partial.transfer.0.settled = Some(true);
+            }
             if more {
                 // dont need to update queue, we use first transfer frame as primary
                 self.partial = Some(partial);
-- 
2.43.0


From a04ddff886644378613822d788313028bfd71edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 47/51] fix: give back the credit of an aborted delivery

---
 src/rcvlink.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 02f30ab..6ab9759 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -332,6 +332,8 @@ impl ReceiverLinkInner {
                 partial.delivery.discard();
             }
             self.completed();
+            // it is not handed out, nobody else can replace its credit
+            self.set_link_credit(1);
             return Action::None;
         }
 
-- 
2.43.0


From 89c7363e304fbb0feac8a71dc4641598dbc7e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 48/51] fix: forget abandoned waits for a delivery

---
 src/delivery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index 20ac64f..ae090ea 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -207,6 +207,8 @@ impl Delivery {
                 }
 
                 let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
+                // abandoned waits
+                inner.tx.retain(|tx| !tx.is_canceled());
                 inner.tx.push(tx);
                 rx
             } else {
-- 
2.43.0


From a6b9ee5f289fcdeb093d181323751f7e289cf75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:28 +0000
Subject: [PATCH 49/51] fix: release handlers of locally detached links

---
 src/dispatcher.rs | 55 +++++++++++++++++++++++++++++++----------------
 src/router.rs     |  6 +++++-
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 060d691..5c4ab6d 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -9,7 +9,9 @@ use ntex_util::{future::Either, task::LocalWaker};
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
-use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
+use crate::{
+    ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, connection::Connection, types,
+};
 
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
@@ -111,6 +113,7 @@ where
 
         // enqueue pending control frames
         queue.pending.borrow_mut().drain(..).for_each(|frame| {
+            self.release_links(frame.kind());
             let fut = self.ctl_service.call(frame.clone());
             futs.push((frame, fut));
         });
@@ -231,30 +234,14 @@ where
                         ));
                     }
                     types::Action::DetachReceiver(link, frm) => {
-                        let lnk = link.clone();
-                        let srv = self.service.pipeline();
-                        spawn(async move {
-                            let _ = call_service(srv, types::Message::Detached(lnk)).await;
-                        });
+                        self.notify_service(types::Message::Detached(link.clone()));
                         self.call_control_service(ControlFrame::new(
                             link.session().inner.clone(),
                             ControlFrameKind::RemoteDetachReceiver(frm, link),
                         ));
                     }
                     types::Action::SessionEnded(links) => {
-                        let receivers = links
-                            .iter()
-                            .filter_map(|either| match either {
-                                Either::Right(link) => Some(link.clone()),
-                                Either::Left(_) => None,
-                            })
-                            .collect();
-
-                        let srv = self.service.pipeline();
-                        spawn(async move {
-                            let msg = types::Message::DetachedAll(receivers);
-                            let _ = call_service(srv, msg).await;
-                        });
+                        self.notify_service(types::Message::DetachedAll(receivers(&links)));
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::RemoteSessionEnded(links),
                         ));
@@ -304,6 +291,26 @@ where
     Ctl: Service<ControlFrame, Response = ()> + 'static,
     Error: From<Sr::Error> + From<Ctl::Error>,
 {
+    /// Links are detached locally, message service must release them
+    fn release_links(&self, kind: &ControlFrameKind) {
+        match kind {
+            ControlFrameKind::LocalDetachReceiver(_, link) => {
+                self.notify_service(types::Message::Detached(link.clone()));
+            }
+            ControlFrameKind::LocalSessionEnded(links) => {
+                self.notify_service(types::Message::DetachedAll(receivers(links)));
+            }
+            _ => (),
+        }
+    }
+
+    fn notify_service(&self, msg: types::Message) {
+        let srv = self.service.pipeline();
+        spawn(async move {
+            let _ = call_service(srv, msg).await;
+        });
+    }
+
     fn handle_control_frame(
         &self,
         frame: &ControlFrame,
@@ -387,6 +394,16 @@ where
     }
 }
 
+fn receivers(links: &[Either<SenderLink, ReceiverLink>]) -> Vec<ReceiverLink> {
+    links
+        .iter()
+        .filter_map(|either| match either {
+            Either::Right(link) => Some(link.clone()),
+            Either::Left(_) => None,
+        })
+        .collect()
+}
+
 /// Call message service when it is ready, unless it is stopped already
 async fn call_service<S: Service<types::Message>>(
     srv: Pipeline<S>,
diff --git a/src/router.rs b/src/router.rs
index 6eada78..50e8591 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -99,7 +99,11 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         match hnd.create(link).await {
                             Ok(srv) => {
                                 let srv = Pipeline::new(srv);
-                                if let Some(item) = self.0.get_mut().handlers.get_mut(&rcv_link) {
+                                let handlers = &mut self.0.get_mut().handlers;
+                                if rcv_link.is_closed() {
+                                    handlers.remove(&rcv_link);
+                                }
+                                if let Some(item) = handlers.get_mut(&rcv_link) {
                                     log::trace!(
                                         "Handler service is created for {}",
                                         rcv_link.name()
-- 
2.43.0


From af8b628e1310237a1fe0c4dc2c33dfd745b2d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:44 +0000
Subject: [PATCH 50/51] fix: wake readers of a link the session detaches

---
 src/rcvlink.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 6ab9759..9993cb0 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -451,7 +451,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
-- 
2.43.0


From cf13e1d865422b98a66ef7f95091349960b12c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 51/51] fix: wake every task that waits for a message

---
 src/rcvlink.rs | 51 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 9993cb0..64dc702 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -1,7 +1,4 @@
-use std::{
-    collections::VecDeque, future::Future, future::poll_fn, hash, pin::Pin, task::Context,
-    task::Poll,
-};
+use std::{collections::VecDeque, future::Future, hash, pin::Pin, task::Context, task::Poll};
 
 use ntex_amqp_codec::protocol::{
     self as codec, Attach, Disposition, Error, ErrorCondition, Handle, LinkError,
@@ -10,7 +7,7 @@ use ntex_amqp_codec::protocol::{
 };
 use ntex_amqp_codec::{Encode, types::Symbol, types::Variant};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
-use ntex_util::{Stream, channel::oneshot, task::LocalWaker};
+use ntex_util::{Stream, channel::condition::Condition, channel::oneshot, task::LocalWaker};
 
 use crate::session::{Session, SessionInner};
 use crate::{Delivery, cell::Cell, error::AmqpProtocolError, types::Action};
@@ -29,6 +26,8 @@ pub(crate) struct ReceiverLinkInner {
     closed: bool,
     confirmed: bool,
     reader_task: LocalWaker,
+    // link could be read by several tasks
+    readers: Condition,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
     delivery_count: u32,
@@ -173,11 +172,19 @@ impl ReceiverLink {
         inner.wake();
     }
 
-    /// Attempt to pull out the next value of this receiver, registering
-    /// the current task for wakeup if the value is not yet available,
+    /// Attempt to pull out the next value of this receiver,
     /// and returning None if the stream is exhausted.
     pub async fn recv(&self) -> Option<Result<(Delivery, Transfer), AmqpProtocolError>> {
-        poll_fn(|cx| self.poll_recv(cx)).await
+        loop {
+            let waiter = {
+                let inner = self.inner.get_mut();
+                if let Poll::Ready(item) = inner.next() {
+                    return item;
+                }
+                inner.readers.wait()
+            };
+            waiter.await;
+        }
     }
 
     /// Attempt to pull out the next value of this receiver, registering
@@ -188,19 +195,11 @@ impl ReceiverLink {
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(Delivery, Transfer), AmqpProtocolError>>> {
         let inner = self.inner.get_mut();
-
-        if let Some(tr) = inner.queue.pop_front() {
-            Poll::Ready(Some(Ok(tr)))
-        } else if inner.closed {
-            if let Some(err) = inner.error.take() {
-                Poll::Ready(Some(Err(AmqpProtocolError::LinkDetached(Some(err)))))
-            } else {
-                Poll::Ready(None)
-            }
-        } else {
+        let item = inner.next();
+        if item.is_pending() {
             inner.reader_task.register(cx.waker());
-            Poll::Pending
         }
+        item
     }
 }
 
@@ -236,6 +235,7 @@ impl ReceiverLinkInner {
             delivery_count: frame.initial_delivery_count().unwrap_or(0),
             max_message_size: 262_144,
             reader_task: LocalWaker::new(),
+            readers: Condition::new(),
         }
     }
 
@@ -246,8 +246,21 @@ impl ReceiverLinkInner {
         self.delivery_count = frame.initial_delivery_count().unwrap_or(0);
     }
 
+    /// Next delivery or the end of the link
+    fn next(&mut self) -> Poll<Option<Result<(Delivery, Transfer), AmqpProtocolError>>> {
+        if let Some(tr) = self.queue.pop_front() {
+            Poll::Ready(Some(Ok(tr)))
+        } else if self.closed {
+            let err = self.error.take();
+            Poll::Ready(err.map(|err| Err(AmqpProtocolError::LinkDetached(Some(err)))))
+        } else {
+            Poll::Pending
+        }
+    }
+
     fn wake(&self) {
         self.reader_task.wake();
+        self.readers.notify();
     }
 
     pub(crate) fn id(&self) -> Handle {
-- 
2.43.0

