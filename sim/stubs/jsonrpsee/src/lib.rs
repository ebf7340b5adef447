//! JSON-RPC over the unix socket named by SIM_SOCKET, one request and one answer per line.
use std::{collections::HashMap, future::Future, pin::Pin, sync::Arc};

use serde_json::{json, Value};
use types::error::{ErrorCode, ErrorObject};

pub mod core {
    pub use async_trait::async_trait;
    pub type RpcResult<T> = Result<T, crate::types::error::ErrorObject>;
}
pub mod proc_macros {
    pub use sim_macros::rpc;
}
pub mod types {
    pub use error::{ErrorCode, ErrorObject, ErrorObject as ErrorObjectOwned};
    pub mod error {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum ErrorCode {
            ParseError,
            InvalidRequest,
            MethodNotFound,
            InvalidParams,
            InternalError,
            ServerError(i32),
        }
        impl ErrorCode {
            pub fn code(&self) -> i32 {
                match self {
                    ErrorCode::ParseError => -32700,
                    ErrorCode::InvalidRequest => -32600,
                    ErrorCode::MethodNotFound => -32601,
                    ErrorCode::InvalidParams => -32602,
                    ErrorCode::InternalError => -32603,
                    ErrorCode::ServerError(c) => *c,
                }
            }
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct ErrorObject {
            pub code: i32,
            pub message: String,
        }
        pub type ErrorObjectOwned = ErrorObject;
        impl ErrorObject {
            pub fn owned<D>(code: i32, message: impl Into<String>, _data: Option<D>) -> Self {
                ErrorObject { code, message: message.into() }
            }
        }
        impl From<ErrorCode> for ErrorObject {
            fn from(c: ErrorCode) -> Self {
                ErrorObject { code: c.code(), message: format!("{c:?}") }
            }
        }
    }
}

type Answer = Result<Value, ErrorObject>;
type Method = Box<dyn Fn(Value) -> Pin<Box<dyn Future<Output = Answer> + Send>> + Send + Sync>;

#[derive(Default)]
pub struct RpcModule {
    methods: HashMap<String, Method>,
}
impl RpcModule {
    pub fn register(&mut self, name: &str, m: Method) {
        self.methods.insert(name.to_string(), m);
    }
}
pub fn param<T: serde::de::DeserializeOwned>(params: &Value, i: usize) -> Result<T, ErrorObject> {
    serde_json::from_value(params.get(i).cloned().unwrap_or(Value::Null)).map_err(|e| ErrorObject { code: ErrorCode::InvalidParams.code(), message: e.to_string() })
}
pub fn answer<T: serde::Serialize>(r: core::RpcResult<T>) -> Answer {
    r.map(|v| serde_json::to_value(v).unwrap())
}

pub mod server {
    use super::*;
    use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};

    #[derive(Default)]
    pub struct ServerBuilder;
    pub struct Server;
    pub struct ServerHandle(tokio::task::JoinHandle<()>);
    impl ServerBuilder {
        pub fn set_middleware<T>(self, _: T) -> Self {
            self
        }
        pub fn max_connections(self, _: u32) -> Self {
            self
        }
        pub fn max_request_body_size(self, _: u32) -> Self {
            self
        }
        pub fn max_response_body_size(self, _: u32) -> Self {
            self
        }
        pub fn http_only(self) -> Self {
            self
        }
        pub async fn build(self, _addr: String) -> anyhow::Result<Server> {
            Ok(Server)
        }
    }
    impl Server {
        pub fn start(self, module: RpcModule) -> ServerHandle {
            let module = Arc::new(module);
            let l = tokio::net::UnixListener::bind(std::env::var("SIM_SOCKET").unwrap()).unwrap();
            ServerHandle(tokio::spawn(async move {
                while let Ok((s, _)) = l.accept().await {
                    let module = module.clone();
                    tokio::spawn(async move {
                        let (r, mut w) = s.into_split();
                        let mut lines = BufReader::new(r).lines();
                        while let Ok(Some(line)) = lines.next_line().await {
                            // one task per request, as the real server has: a panic ends the request only
                            let m = module.clone();
                            let a = tokio::spawn(async move {
                                let q: Value = serde_json::from_str(&line).unwrap();
                                match m.methods.get(q["method"].as_str().unwrap()) {
                                    Some(f) => f(q["params"].clone()).await,
                                    None => Err(ErrorCode::MethodNotFound.into()),
                                }
                            })
                            .await;
                            let v = match a {
                                Ok(Ok(v)) => json!({ "result": v }),
                                Ok(Err(e)) => json!({ "error": { "code": e.code, "message": e.message } }),
                                Err(_) => json!({ "panic": true }),
                            };
                            let mut b = serde_json::to_vec(&v).unwrap();
                            b.push(b'\n');
                            if w.write_all(&b).await.is_err() {
                                break;
                            }
                        }
                    });
                }
            }))
        }
    }
    impl ServerHandle {
        pub async fn stopped(self) {
            let _ = self.0.await;
        }
    }
}
