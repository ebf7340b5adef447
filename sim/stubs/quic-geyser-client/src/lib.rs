//! Messages come over a unix socket whose path is the url: a length and a bincoded message each.
pub mod non_blocking {
    pub mod client {
        use quic_geyser_common::{filters::Filter, message::Message, types::connections_parameters::ConnectionParameters};
        use tokio::{
            io::{AsyncReadExt, AsyncWriteExt},
            net::{unix::OwnedWriteHalf, UnixStream},
            sync::{mpsc, Mutex},
            task::JoinHandle,
        };
        pub struct Client {
            w: Mutex<OwnedWriteHalf>,
        }
        impl Client {
            pub async fn new(url: String, _: ConnectionParameters) -> anyhow::Result<(Client, mpsc::UnboundedReceiver<Message>, JoinHandle<()>)> {
                let (mut r, w) = UnixStream::connect(&url).await?.into_split();
                let (tx, rx) = mpsc::unbounded_channel();
                let jh = tokio::spawn(async move {
                    while let Ok(n) = r.read_u32_le().await {
                        let mut b = vec![0u8; n as usize];
                        if r.read_exact(&mut b).await.is_err() {
                            break;
                        }
                        let Ok(m) = bincode::deserialize::<Message>(&b) else { break };
                        if tx.send(m).is_err() {
                            break;
                        }
                    }
                });
                Ok((Client { w: Mutex::new(w) }, rx, jh))
            }
            pub async fn subscribe(&self, filters: Vec<Filter>) -> anyhow::Result<()> {
                let b = bincode::serialize(&Message::Filters(filters))?;
                let mut w = self.w.lock().await;
                w.write_u32_le(b.len() as u32).await?;
                w.write_all(&b).await?;
                Ok(())
            }
        }
    }
}
