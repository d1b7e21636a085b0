pub use shard_ecs; pub use shard_ecs_derive;
